"""Histories about rendering (G12, G13): the DOT text is read back by Graphviz itself."""
import inspect
import re
import subprocess
from xml.etree import ElementTree

from drivers import *
from colouration import Colour, Scheme
from replay import concrete, path

TEXTS = ['a', 'b', 'node', 'graph', 'edge', 'subgraph', 'digraph', 'strict', 'say "hi"', '"', '""', 'x\ny', '[label=z]', 'a -> b', '];', '}',
	'{', '// c', '/* c', '#1', '<b>x</b>', '<', 'a:b:c', 'a;b', 'a,b', "it's", 'tab\there', ' ', '  lead', 'é', '名', '100%', 'a&b', '=', '-', '1.5', '-0',
	'a"->"b', '"]; "x" [', '_', 'A B', '\nx', 'l1\nl2\n', 'x' * 60, '!', '(a|b)', '<table>', '>', 'long ' * 100, 'y' * 400, 'x\r\ny', '\U0001f600', 'e\u0301', '<x> and <y>', '<<<>',
	'<a> ]; x -> y; subgraph s { graph [label=<b>', '']
LONG_TEXTS = ['z' * 20000, '"' * 9000, '名"\U0001f600' * 7000, 'word ' * 9000, 'line\n' * 4000]    # Graphviz reads at most 16384 bytes of a string in one piece
HTML_LABELS = ['<table>']    # these graph labels are the user's own HTML
DOT_NAMES = ['s:' + esc(t) for t in TEXTS] + ['i:7', 'i:-3', 's:0', 'i:42']
FALSY = ['s:', 'i:0', 'b:False', 'f:0.0', 'j:%5B%5D']
DOT_LABS = ['n'] * 40 + ['s:', 'i:0'] * 3 + FALSY + ['i:5', 'b:True', 'f:2.5'] + ['s:' + esc(t) for t in TEXTS]
DOT_VALS = ['n'] * 8 + FALSY * 4 + ['i:3', 'f:0.5', 'j:' + esc(repr(['a"b', 1])), 'j:' + esc(repr({'k': '"'}))] + ['s:' + esc(t) for t in TEXTS]
DOT_TIPS = FALSY + [x for x in DOT_LABS if x != 'n']
DOT_IDS = ['n', 'n', 'i:0', 'i:1', 's:', 's:' + esc('"x'), 's:a']
KEYWORD = dict(href='label_url', fontsize='font_size', fontname='font', fontcolor='label_colour')    # graph attributes with a name of their own
OF_LABEL = ['href', 'labelloc', 'fontsize', 'fontname', 'fontcolor']    # shown only with a label
GRAPH_KW = ['nodesep', 'ranksep', 'splines', 'concentrate', 'comment', 'id', 'margin']


def parse_dot(texts):
	"""what Graphviz reads in each text: one record per text"""
	result = []
	step = 100
	for i in range(0, len(texts), step):
		chunk = texts[i:i + step]
		got = run_dot(chunk)
		if got is None:
			got = []
			for t in chunk:
				# a layout may crash Graphviz, which says nothing about the text
				one = run_dot([t]) or run_dot([t], 'osage')
				got.append(one[0] if one is not None else None)
		result += got
	return [describe(t, j) for t, j in zip(texts, result)]


def run_dot(texts, engine='dot'):
	plain_ = [t[len('strict '):] if t.startswith('strict ') else t for t in texts]
	try:
		p = subprocess.run(['dot', f'-K{engine}', '-Tdot_json'], input='\n'.join(plain_).encode('utf-8', 'surrogatepass'), capture_output=True, timeout=120)
	except subprocess.TimeoutExpired:
		return None
	if p.returncode != 0 or b'rror' in p.stderr:
		return None
	out = p.stdout.decode('utf-8', 'replace')
	dec = json.JSONDecoder(strict=False)
	docs, k = [], 0
	while True:
		while k < len(out) and out[k].isspace():
			k += 1
		if k >= len(out):
			break
		d, k = dec.raw_decode(out, k)
		docs.append(d)
	return docs if len(docs) == len(texts) else None


def html_strings(text):
	"""how many strings of the text are written as HTML rather than quoted"""
	n, k = 0, 0
	while k < len(text):
		c = text[k]
		if c == '"':
			k += 1
			while k < len(text) and text[k] != '"':
				k += 2 if text[k] == '\\' else 1
		elif c == '<':
			n += 1
			depth = 1
			while depth and k + 1 < len(text):
				k += 1
				depth += {'<': 1, '>': -1}.get(text[k], 0)
		elif c == '-' and text[k:k + 2] == '->':
			k += 1
		k += 1
	return n


LOOK = {'color', 'fillcolor', 'fontname', 'fontcolor', 'fontsize', 'opacity', 'shape', 'style', 'arrowsize', 'lblstyle', 'penwidth'}


def shown_look(attributes):
	return esc(';'.join(f'{k}={v}' for k, v in sorted(attributes.items()) if k in LOOK and v != ''))


def arrow(edge):
	"""the size of its arrow, in thousandths"""
	return round(1000 * float(re.findall(r'"arrowsize"="([^"]*)"', edge.style.get_graphviz_str())[0]))


def thousandths(x):
	"""a number as a whole number of thousandths; None if it is no such number, or a big one"""
	return round(x * 1000) if abs(x) <= 1000 and abs(round(x * 1000) - x * 1000) < 1e-6 else None


def style_look(style):
	"""the same, from a style's own text"""
	return '' if style is None else shown_look(dict(re.findall(r'"([^"]*)"="([^"]*)"', style.get_graphviz_str())))


def describe(text, j):
	if j is None:
		return dict(ok=False)
	by = {o['_gvid']: o for o in j.get('objects', [])}
	subs = j.get('_subgraph_cnt', 0)
	nodes = [[esc(o['name']), esc(o.get('label', '')), esc(o.get('tooltip', '')), shown_look(o)] for v, o in by.items() if v >= subs]
	edges, ports = [], 0
	for x in j.get('edges', []):
		ports += 'tailport' in x or 'headport' in x
		edges.append([esc(by[x['tail']]['name']), esc(by[x['head']]['name']), esc(x.get('label', '')), esc(x.get('tooltip', '')), shown_look(x)])
	attrs = {k: esc(v) for k, v in j.items() if isinstance(v, str) and k != 'name'}
	htext = '?'
	try:
		htext = esc(''.join(ElementTree.fromstring(j.get('label', '').strip()).itertext()).strip())
	except ElementTree.ParseError:
		pass
	return dict(ok=True, nodes=nodes, edges=edges, attrs=attrs, directed=bool(j.get('directed')), strict=text.startswith('strict '),
		subgraphs=subs, ports=int(ports), html=html_strings(text), htext=htext)


class RenderGen(Gen):
	"""adds tooltips, and what was asked of the graph, to the events"""
	def __init__(self, *args, **kwargs):
		super().__init__(*args, **kwargs)
		self.asked = {}     # graph -> stylist and colour scheme it was made with
		self.settings = {}  # graph -> the graph attributes asked for

	def copy(self, g, how=None):
		if how is None and not isinstance(self.asked[g][1], str):
			how = 'copy'    # a scheme object of the colour library cannot be deep-copied or pickled
		e = super().copy(g, how)
		self.asked[f'g{self.count}'] = self.asked[g]
		self.settings[f'g{self.count}'] = dict(self.settings[g])
		return e

	def add_node(self, g, name=None, a=None, pol=None, how=None):
		name = name or self.ch(self.names)
		a = a or dict(self.attrs(), par={})
		if name not in self.nodes(g) and self.coin(.3):
			a = dict(a, tip=self.ch(DOT_TIPS))
		e = dict(op='add_node', g=g, name=name, a=a, pol='ignore', how='graph', kind='ok', sd=self.coin(0.4), tip=a.get('tip', 'n'))
		return self.w.do(e)

	def connect(self, g, s=None, e=None, r=None, a=None, pol=None, how=None):
		ns = self.nodes(g)
		if not ns:
			return
		s = s or self.ch(ns)
		e = e or (s if self.coin(0.12) else self.ch(ns))
		r = r or self.ch(self.ids)
		a = a or dict(self.attrs(), par={})
		if edge_key_of(s, e, r) not in self.p(g)['ea'] and self.coin(.3):
			a = dict(a, tip=self.ch(DOT_TIPS))
		return self.w.do(dict(
			op='connect', g=g, s=s, e=e, r=r, a=a, pol='ignore', how=self.ch(['graph', 'to', 'from']), sb=self.ch(['name', 'obj']),
			eb=self.ch(['name', 'obj']), sd=self.coin(0.4), tip=a.get('tip', 'n')
		))

	def new(self, ow=None, conv=None, stylist='pensieve', glabel='default', attrs=None, gdir='LR', html=None, strict=None, **kw):
		g = self.fresh()
		kw = dict(kw)
		if stylist != 'pensieve':
			kw['stylist'] = stylist
		if glabel != 'default':
			kw['label'] = untok(glabel)
		if gdir != 'LR':
			kw['direction'] = gdir
		for k, t in (attrs or {}).items():
			if k == 'labelloc':
				kw['label_location'] = dict(t='top', b='bottom', n=None)[t if t == 'n' else untok(t)]
			elif k == 'bgcolor':
				kw['background_colour'] = Colour(untok(t)) if self.coin() else untok(t)
			else:
				kw[KEYWORD.get(k, k)] = untok(t)
		if html:
			kw['label_background_colour'] = html
		self.asked[g] = (stylist, kw.get('colour_scheme', 'pensieve2'))
		self.settings[g] = dict(attrs or {})
		self.w.do(dict(
			op='new', g=g, strict=self.coin() if strict is None else strict, ord=self.coin(), ow=ow or ('y' if self.coin(0.3) else 'n'),
			conv=self.coin(0.3) if conv is None else conv, kw=kw, stylist=stylist, gdir=gdir, attrs=attrs or {},
			glabel='s:' + esc('\nPowered by Abstract') if glabel == 'default' else glabel, html=bool(html)
		))
		return g

	def describe(self, g):
		"""a description that changes what is asked of the graph"""
		d, e = dict(nodes=self.ch([[], {}]), edges=[]), dict(op='describe', g=g, attrs={})
		attrs = self.settings[g]
		if self.coin():
			d['strict'] = e['strict'] = self.coin()
		if self.coin():
			d['direction'] = e['gdir'] = self.ch(['LR', 'TB', 'RL', 'BT', 'tb', 'lr'])
		if self.coin():
			d['ordering'] = self.coin()
		if self.coin():
			if self.coin(.3) and not set(attrs) & set(OF_LABEL):
				d['label'], e['glabel'] = None, 'n'
			else:
				# shown on a line of its own; Graphviz itself loses a newline in front of a quote, or of the end, where a text begins
				d['label'] = self.ch([t for t in TEXTS if t and t[0] != '"'])
				e['glabel'] = 's:' + esc('\n' + d['label'])
		if self.coin(.4):
			d['tooltip'] = None if self.coin(.25) else self.ch(TEXTS)
			e['attrs']['tooltip'] = attrs['tooltip'] = 'n' if d['tooltip'] is None else 's:' + esc(d['tooltip'])
		if self.coin(.4) and d.get('label', '') is not None and not self.unlabelled(g):
			d['label_url'] = None if self.coin(.25) else self.ch(TEXTS)
			e['attrs']['href'] = attrs['href'] = 'n' if d['label_url'] is None else 's:' + esc(d['label_url'])
		graph = self.w.graphs[g]
		_, res = guarded(lambda: graph.append(d))
		res['o'] = '-'
		self.w.finish(dict(e, res=res), None)

	def unlabelled(self, g):
		label = None
		for e in self.w.events:
			if e.get('g') == g and 'glabel' in e:
				label = e['glabel']
			if e['op'] == 'copy' and e.get('g2') == g:
				return self.unlabelled(e['g'])
		return label == 'n'

	def dot(self, g, **opts):
		o = dict(direction='', pad='', height='', width='', **opts)
		if self.coin(.3):
			o['direction'] = self.ch(['LR', 'TB', 'RL', 'BT', 'tb', 'lr'])
		kw = {}
		if o['direction']:
			kw['direction'] = o['direction']
		pad = '0.1'
		if self.coin(.3):
			pad = self.ch(['0.5', '2', '0', '', '0.1'])
			kw['pad'] = None if pad == '' else float(pad) if '.' in pad else int(pad)
		h = w = ''
		if self.coin(.3):
			h = self.ch(['3', '10', '2.5'])
			kw['height'] = float(h) if '.' in h else int(h)
		if self.coin(.3):
			w = self.ch(['4', '7', '1.5'])
			kw['width'] = float(w) if '.' in w else int(w)
		graph = self.w.graphs[g]
		how = self.ch(['str', 'source'])
		if how == 'source':
			fn = lambda: graph.get_graphviz_source(**kw).source
		else:
			fn = lambda: graph.get_graphviz_str(**kw)
		value, res = guarded(fn)
		res['o'] = '-'
		looks, _ = guarded(lambda: [{tok(n.name): style_look(n.style) for n in graph.nodes}, {self.w.reg(x): style_look(x.style) for x in graph.edges}])
		looks = looks or [{}, {}]
		e = dict(op='dot', g=g, lookn=looks[0], looke=looks[1], dir=o['direction'], pad=pad, h=h, w=w, res=res, obs={}, text=value)
		self.w.finish(e, None)

	def stylized(self, g):
		"""a rendering with what G13 needs to know about it"""
		graph = self.w.graphs[g]
		before = {id(n): n.style is None for n in graph.nodes}
		auto = [e for n in graph.nodes for e in n.outward_edges_dict.values() if e.style is None]

		def fn():
			a = graph.render().source
			b = graph.render().source
			c = graph.get_graphviz_str()
			return [hashlib.sha1(x.encode('utf-8', 'surrogatepass')).hexdigest()[:12] for x in (a.rstrip('\n'), b.rstrip('\n'), c.rstrip('\n'))]
		text, res = guarded(fn)
		res['o'] = '-'
		obs = {}
		if res['k'] == 'ok':
			def look():
				stylist, scheme = self.asked[g]
				scheme = Scheme(name=scheme) if isinstance(scheme, str) else scheme
				ref = {}
				for e in auto[:6]:
					if e.start.style is None:
						continue
					r = Graph(stylist=stylist)
					r.add_node('u', style=copy.deepcopy(e.start.style))
					r.add_node('v')
					x = r.connect('u', 'v', value=e.value)
					r.render()
					ref[key_token(e.id)] = style_token(x.style)
				r = Graph(stylist=stylist)
				plain_arrow = r.connect(r.add_node('u'), r.add_node('v'))
				r.render()
				numbered = [e for e in auto if type(e.value) in (int, float) and thousandths(e.value) is not None]
				return dict(
					unit=arrow(plain_arrow), num={key_token(e.id): thousandths(e.value) for e in numbered},
					arrow={key_token(e.id): arrow(e) for e in numbered},
					text=text, scheme=[c.hexadecimal for c in scheme.colours],
					main={tok(n.name): (n.style.colour.hexadecimal if n.style is not None else '-') for n in graph.nodes}, ref=ref
				)
			obs, res2 = guarded(look)
			if res2['k'] != 'ok':
				res = dict(res2, o='-')
				obs = {}
		self.w.finish(dict(op='render', g=g, res=res, obs=obs), None)


def tables(gen, h):
	"""texts of all tokens of a history, independent of the code under test"""
	toks, labs = set(), set()
	for e in h['ev']:
		for snap in e['post'].values():
			if snap['ok']:
				p = snap['p']
				toks.update(p['nodes'])
				for t in ('na', 'ea'):
					for x in p[t].values():
						toks.update([x['lab'], x['val']])
						labs.add(x['lab'])
		toks.update(e.get('attrs', {}).values())
		if 'glabel' in e:
			toks.add(e['glabel'])
		if e.get('tip'):
			toks.add(e['tip'])
	toks.discard('n')
	labs.discard('n')
	txt = {t: esc(str(untok(t))) for t in toks}
	h['txt'] = txt
	h['falsy'] = [t for t in toks if not untok(t)]
	h['trim'] = {t: esc(str(untok(t)).replace('\r\n', '\n').replace('\r', '\n').strip()) for t in toks}    # XML has one kind of line end
	h['cnvn'] = {x: esc(conv_upper(unquote(x))) for x in txt.values()}
	h['cnve'] = {t: esc(conv_edge(untok(t))) for t in labs}
	return h


def load_event(gen, graph, g, stylist):
	gen.w.graphs[g] = graph
	gen.w.finish(dict(op='load', g=g, res=dict(k='ok', x='-', w=0, o='-'), stylist=stylist, glabel='s:' + esc('\nPowered by Abstract')), None)


def dot_histories(rng, count):
	hs = []
	for k in range(count):
		gen = RenderGen(rng, names=rng.sample(DOT_NAMES, rng.randrange(2, 9)), labs=DOT_LABS, vals=DOT_VALS, ids=DOT_IDS, pars=False)
		gen.obj_same_graph = True
		attrs = {}
		for a in rng.sample(GRAPH_KW, rng.randrange(0, 3)):
			attrs[a] = rng.choice(['i:2', 'i:0', 'f:0.7', 'f:2.0', 'f:1e-05', 's:' + esc(rng.choice(TEXTS)), 's:true'])
		if rng.random() < .3:
			attrs['tooltip'] = 's:' + esc(rng.choice(TEXTS))
		if rng.random() < .2:
			attrs['href'] = 's:' + esc(rng.choice(TEXTS))
		glabel = rng.choice(['default', 'default', 'n'] + ['s:' + esc(t) for t in rng.sample(TEXTS, 4) if t not in HTML_LABELS])
		if rng.random() < .2:
			attrs['href'] = 'n'    # no address
		for a, values in (('labelloc', ['t', 'b', None]), ('fontsize', [6, 22, None]), ('fontname', ['courier', 'times', None]), ('fontcolor', ['red', '#123456', None]),
				('bgcolor', ['#123456', '#abcdef'])):
			if rng.random() < .25:
				attrs[a] = tok(rng.choice(values))
		if glabel == 'n':
			for a in OF_LABEL:
				attrs.pop(a, None)
		g = gen.new(glabel=glabel, attrs=attrs, gdir=rng.choice(['LR', 'LR', 'TB', 'RL', 'BT', 'tb']),
			html='yellow' if glabel != 'n' and rng.random() < .25 else None, stylist=rng.choice(['pensieve', 'random']))
		for _ in range(rng.randrange(0, 16)):
			gen.mutate(gen.ch(gen.graphs()), dict(add_node=6, connect=8, rm_node=1, disconnect=1, add_obj=1, set=2))
		for _ in range(rng.randrange(1, 3)):
			if gen.broken():
				break
			g = gen.ch(gen.graphs())
			if gen.coin(.25):
				gen.stylized(g)
			if gen.coin(.12):
				gen.copy(g)
				g = gen.graphs()[-1]
			if gen.coin(.25) and not gen.broken():
				gen.describe(g)
			gen.dot(g)
			if gen.coin(.3) and not gen.broken():
				gen.mutate(g, dict(add_node=3, connect=5, rm_node=1, set=2))
		hs.append((gen, gen.w.history(f'dot-{k}')))
	# every text in every place, one at a time
	for t in TEXTS + LONG_TEXTS:
		gen, T = RenderGen(rng, pars=False), 's:' + esc(t)
		g = gen.new(conv=False, glabel='s:' + esc(t) if t not in HTML_LABELS else 'default', attrs=dict(tooltip='s:' + esc(t), href=T, labelloc='s:t'))
		gen.w.do(dict(op='add_node', g=g, name=T, a=plain(tip=T), pol='ignore', how='graph', kind='ok', tip=T))
		gen.w.do(dict(op='add_node', g=g, name='s:other', a=plain(lab=T), pol='ignore', how='graph', kind='ok', tip='n'))
		for a in (plain(tip=T, lab=T), plain(val=T), plain(tip=T)):
			gen.w.do(dict(op='connect', g=g, s=T, e='s:other', r=f'i:{len(gen.w.events)}', a=a, pol='ignore', how='graph', sb='name', eb='name', tip=a.get('tip', 'n')))
		gen.dot(g)
		hs.append((gen, gen.w.history('text')))
	yield from parsed(hs)


def parsed(hs):
	"""the histories with what Graphviz reads in their texts"""
	where = [(h, e) for _, h in hs for e in h['ev'] if e['op'] == 'dot' and e['res']['k'] == 'ok']
	for (h, e), obs in zip(where, parse_dot([e['text'] for h, e in where])):
		e['obs'] = obs
	for gen, h in hs:
		for e in h['ev']:
			e.pop('text', None)
		yield tables(gen, h)


class RenderReplay:
	"""leads real graphs through a transition of AbstractGraph, renderings included, and renders in the end"""
	def __init__(self, rng, text):
		self.rng, self.text = rng, text      # text: are the texts read (G12), or the looks (G13)?
		self.states = {}

	def histories(self, ts):
		for i, some in enumerate(itertools.batched(ts, 1000)):
			hs = [self.history(t, 1000 * i + k) for k, t in enumerate(some)]
			yield from parsed(hs) if self.text else (tables(gen, h) for gen, h in hs)

	def history(self, t, k):
		rng = self.rng
		gen = RenderGen(rng, pars=False)
		gen.obj_same_graph = True
		g = gen.new(conv=None if self.text else False, ow='n', stylist=rng.choice(['pensieve', 'pensieve', 'random']), **({} if rng.random() < .5 else dict(colour_scheme=scheme(rng))))
		self.names = dict(zip(['s:a', 's:b', 's:c'], rng.sample(DOT_NAMES if self.text else LETTERS, 3)))
		self.tokens = {'s:L': rng.choice(DOT_LABS[40:]), 'i:5': rng.choice(DOT_VALS[8:]), 'i:0': rng.choice(DOT_IDS[2:])} if self.text else {}
		try:
			for e in path(self.states, t['at']) + [t['e']]:
				self.step(gen, g, dict(e))
				if gen.broken():
					break
			else:
				if t['e']['op'] != 'render' and not self.text:
					gen.stylized(g)
		except (LookupError, RuntimeError, AttributeError):
			if not gen.broken():
				self.finish(gen, g)
		return gen, gen.w.history(f'{k}')

	def finish(self, gen, g):
		gen.dot(g) if self.text else gen.stylized(g)

	def step(self, gen, g, e):
		op = e['op']
		if op == 'text':
			return gen.dot(g)
		if op == 'render':
			return gen.stylized(g)
		for f in ('name', 's', 'e'):
			if f in e:
				e[f] = self.names[e[f]]
		if 'key' in e:
			start, rest = e['key'].split('>')
			end, r = rest.split('#')
			e['key'] = edge_key_of(self.names[start], self.names[end], self.tokens.get(r, r))
		if 'a' in e:
			e['a'] = dict(e['a'], lab=self.tokens.get(e['a']['lab'], e['a']['lab']), val=self.tokens.get(e['a']['val'], e['a']['val']))
		if 'r' in e:
			e['r'] = self.tokens.get(e['r'], e['r'])
		e = dict(concrete(self.rng, gen.w, dict(e, g=g), False), tip='n')
		new = e['name'] not in gen.nodes(g) if op == 'add_node' else op == 'connect' and edge_key_of(e['s'], e['e'], e['r']) not in gen.p(g)['ea']
		if new and self.text and gen.coin(.3):
			e['tip'] = gen.ch(DOT_TIPS)
			e['a'] = dict(e['a'], tip=e['tip'])
		gen.w.do(e)


# ---------------------------------------------------------------- G13
EDGE_VALUES = [None, None, None, 1, 2, 0.5, 0, -1, 'big', '', [1], True, 10 ** 6, 10 ** 400, -10 ** 400, float('inf'), float('nan')]
SCHEMES = ['pensieve2', 'pensieve', 'pastel15']


def scheme(rng):
	"""the name of a scheme, or a scheme of a few colours, which run out soon"""
	if rng.random() < .3:
		return rng.choice(SCHEMES)
	colours = rng.sample(['red', 'green', 'blue', 'orange', 'purple', 'brown', 'teal'], rng.randrange(1, 5))
	return Scheme(colours=[Colour(obj=c) for c in colours], normalize_lightness=None)


def preset(rng, graph, p, colours=None):
	if colours is not None and rng.random() < .5:
		# most of them in one colour of the scheme itself
		own = (Scheme(name=colours) if isinstance(colours, str) else colours).colours
		own = [rng.choice(own)] * 4 + [rng.choice(own)]
		for n in graph.nodes:
			if rng.random() < p:
				n.style = NodeStyle(colour=rng.choice(own))
	for n in graph.nodes:
		if n.style is None and rng.random() < p:
			n.style = make_style('n', rng.choice('ABDF'))
	for e in graph.edges:
		if rng.random() < p:
			e.style = make_style('e', rng.choice('ABDF'))


def shape(rng, n, pairs, names_, p, twins=False, **kw):
	graph = Graph(**kw)
	for t in names_[:n]:
		graph.add_node(name=untok(t))
	pairs = list(pairs)
	if n > 3 and twins:
		# the last nodes have the same parents as one another
		last = range(n - rng.randrange(2, 4), n)
		who = [rng.randrange(last[0]) for _ in range(rng.randrange(2, 5))]
		pairs = [c for c in pairs if c[0] < last[0] and c[1] < last[0]]
		tail = [(i, j) for j in last for i in who]
	else:
		tail = []
	rng.shuffle(pairs)
	for k, (i, j) in enumerate(pairs + tail):
		graph.connect(untok(names_[i]), untok(names_[j]), id=k if rng.random() < .5 else None, value=rng.choice(EDGE_VALUES), if_edge_exists='ignore')
	preset(rng, graph, p, kw.get('colour_scheme', 'pensieve2'))
	return graph


def style_histories(rng, n4, n_random, n_mut, big=True):
	def one(hid, graph, stylist, colours='pensieve2'):
		gen = RenderGen(rng, pars=False)
		gen.asked['g'] = (stylist, colours)
		load_event(gen, graph, 'g', stylist)
		if not gen.broken():
			gen.stylized('g')
		h = gen.w.history(hid)
		return tables(gen, h)
	def kw():
		s = rng.choice(['pensieve', 'pensieve', 'pensieve', 'random'])
		d = dict(stylist=s)
		if rng.random() < .6:
			d['colour_scheme'] = scheme(rng)
		if rng.random() < .2:
			d['style_overwrite_allowed'] = True
		return d
	for n in range(0, 4):
		for pairs in small_digraphs(n):
			d = kw()
			extra = [c for c in pairs if rng.random() < .1]
			yield one(f'small-{n}', shape(rng, n, pairs + extra, LETTERS if rng.random() < .5 else NAMES, rng.choice([0, 0, .3]), **d), d['stylist'], d.get('colour_scheme', 'pensieve2'))
	for pairs in small_digraphs(4, n4, rng):
		d = kw()
		yield one('four', shape(rng, 4, pairs, LETTERS, rng.choice([0, 0, .3]), **d), d['stylist'], d.get('colour_scheme', 'pensieve2'))
	for k in range(n_random):
		d = kw()
		n = rng.randrange(4, 16)
		pairs = random_pairs(rng, n)
		pairs += [c for c in pairs if rng.random() < .2]
		names_ = ['s:n%d' % i for i in range(n)]
		yield one(f'random-{k}', shape(rng, n, pairs, names_, rng.choice([0, 0, .2, .6, 1]), twins=k % 2 == 0, **d), d['stylist'], d.get('colour_scheme', 'pensieve2'))
	# many starters: the colours run out and start again
	for k in range(6):
		d = kw()
		n = rng.randrange(11, 34)
		yield one(f'starters-{k}', shape(rng, n, [(i, i) for i in range(n) if rng.random() < .3], ['s:n%d' % i for i in range(n)], .1, **d), d['stylist'], d.get('colour_scheme', 'pensieve2'))
	if big:
		# a chain, and a ladder, longer than the room left on the stack
		limit = sys.getrecursionlimit()
		sys.setrecursionlimit(len(inspect.stack()) + 250)
		try:
			yield one('chain, little stack', shape(rng, 280, [(i, i + 1) for i in range(279)], ['s:n%d' % i for i in range(280)], 0), 'pensieve')
			yield one('ladder, little stack', shape(rng, 280, [(i + 1, i) for i in range(279)] + [(i + 2, i) for i in range(278)], ['s:n%d' % i for i in range(280)], 0), 'pensieve')
		finally:
			sys.setrecursionlimit(limit)
		for stylist in ('pensieve', 'random'):
			for name, n, pairs in (
				('chain', 130, [(i, i + 1) for i in range(129)]), ('reverse chain', 130, [(i + 1, i) for i in range(129)]),
				('diamonds', 44, [(2 * i + a, 2 * i + 2 + b) for i in range(21) for a in (0, 1) for b in (0, 1)]),
				('cycle', 60, [(i, (i + 1) % 60) for i in range(60)]), ('complete', 9, [(i, j) for i in range(9) for j in range(9)]),
				('star', 60, [(0, i) for i in range(1, 60)]), ('cycles in a row', 60, [(i, i + 1 if i % 3 < 2 else i - 2) for i in range(60)] + [(3 * i, 3 * i + 3) for i in range(19)]),
			):
				yield one(name, shape(rng, n, pairs, ['s:n%d' % i for i in range(n)], 0, stylist=stylist), stylist)
	for k in range(n_mut):
		gen = RenderGen(rng, names=LETTERS[:7], vals=['n', 'n', 'i:0', 'i:2', 'f:0.5', 's:v', 'i:-1', 'b:True', 'f:0.0', 'i:1', 'f:2.25'], ids=['n', 'n', 'i:0', 's:x'], pars=False)
		gen.obj_same_graph = True
		stylist = rng.choice(['pensieve', 'pensieve', 'random'])
		gen.new(stylist=stylist, conv=False, **({} if rng.random() < .4 else dict(colour_scheme=scheme(rng))))
		for _ in range(rng.randrange(1, 4)):
			for _ in range(rng.randrange(1, 9)):
				if not gen.broken():
					gen.mutate(gen.ch(gen.graphs()), dict(add_node=6, connect=9, rm_node=1, disconnect=2, add_obj=1, set=2, restyle=1))
			if gen.broken():
				break
			gen.stylized(gen.ch(gen.graphs()))
			if gen.coin(.2) and len(gen.graphs()) < 3 and not gen.broken():
				gen.copy(gen.ch(gen.graphs()))
			if gen.broken():
				break
		yield tables(gen, gen.w.history(f'mutating-{k}'))
