"""Histories of style objects (G22)."""
import re
import zlib

import elsewhere
from drivers import *
from colouration import Colour
from replay import path

COLOURS = ['red', 'blue', 'green', 'yellow', 'pink', 'black', 'white', 'orange', 'purple']
PLAIN = {
	'node': dict(fontname='font', fontsize='text_size', opacity='opacity', shape='shape', style='shape_style'),
	'edge': dict(fontname='font', fontsize='text_size', opacity='opacity', arrowsize='arrow_size', lblstyle='label_style', penwidth='line_width'),
}
PLAIN_VALUES = dict(
	font=['helvetica', 'courier', 'times'], text_size=[8, 10, 12, 0], opacity=[None, 0.5, 0.25, 1, 0], shape=['box', 'circle', 'egg', None],
	shape_style=['filled', 'rounded', 'rounded, filled', None], arrow_size=[0.5, 1, 2, 0], label_style=['above', 'below', 'left', None], line_width=[1, 2, 0, 3.5]
)


def hexa(colour, opacity=None):
	return colour.get_hexadecimal(opacity=opacity)


def brightness(colour):
	r, g, b = (int(hexa(colour)[i:i + 2], 16) for i in (1, 3, 5))
	return r + g + b


class Tables:
	"""how fresh styles derive colours and how the colour library inverts and writes them"""
	def __init__(self):
		base = [Colour(x) for x in COLOURS] + [NodeStyle().colour]
		chain = {}
		for c in base:
			i = Colour(obj=c).invert()
			j = i.invert()
			if hexa(j) == hexa(c) and hexa(j.invert()) == hexa(i):
				chain[hexa(c)] = c
				chain.setdefault(hexa(i), i)
		self.colours = {x: hexa(Colour(x)) for x in COLOURS if hexa(Colour(x)) in chain}
		self.fill, self.border, self.gray, self.inv = dict(yes={}, no={}), dict(yes={}, no={}), {}, {}
		lum = dict(main={}, fill=dict(yes={}, no={}), border=dict(yes={}, no={}))
		every = dict(chain)
		for h, c in chain.items():
			self.inv[h] = hexa(c.invert())
			lum['main'][h] = brightness(c)
			for key, light in (('yes', True), ('no', False)):
				s = NodeStyle(colour=c, lighter_fill=light)
				self.fill[key][h], self.border[key][h] = hexa(s.fill_colour), hexa(s.border_colour)
				self.gray[self.fill[key][h]] = hexa(s.text_colour)
				lum['fill'][key][h], lum['border'][key][h] = brightness(s.fill_colour), brightness(s.border_colour)
				for x in (s.fill_colour, s.border_colour, s.text_colour):
					every.setdefault(hexa(x), x)
		for h, c in chain.items():
			self.gray[h] = hexa(NodeStyle(fill_colour=c).text_colour)
			every.setdefault(self.gray[h], NodeStyle(fill_colour=c).text_colour)
		alpha = {'n' if o is None else str(o): {h: hexa(c, o) for h, c in every.items()} for o in PLAIN_VALUES['opacity']}
		plain = {}
		for kind, cls in (('node', NodeStyle), ('edge', EdgeStyle)):
			plain[kind] = {a: 'n' for a in PLAIN[kind]}
		# the documented defaults
		plain['node'].update(fontname='helvetica', fontsize='10', shape='box', style='rounded, filled')
		plain['edge'].update(fontname='helvetica', fontsize='8', opacity='1', arrowsize='0.5', lblstyle='below', penwidth='1')
		bright = {h: self.fill['yes'][h] for h in chain}
		self.json = dict(fill=self.fill, border=self.border, gray=self.gray, inv=self.inv, alpha=alpha, plain=plain, lum=lum,
			default=hexa(Colour(hexadecimal='#AAAAAA')), distinct=len(set(bright.values())) > len(bright) // 2)


def shown_text(style):
	return dict(re.findall(r'"([^"]*)"="([^"]*)"', style.get_graphviz_str()))


def look(kind, style):
	text = shown_text(style)
	o = dict(main=hexa(style.colour), shown={}, at={})
	colours = dict(text='text_colour') if kind == 'edge' else dict(text='text_colour', fill='fill_colour', border='border_colour')
	keys = dict(text='fontcolor', main='color') if kind == 'edge' else dict(text='fontcolor', fill='fillcolor', border='color')
	for k, a in colours.items():
		c = getattr(style, a)
		o[k] = '-' if c is None else hexa(c)
	for k, a in keys.items():
		o['shown'][k] = text.pop(a, '-')
	for a in PLAIN[kind]:
		if a == 'opacity' and kind == 'edge':
			continue
		if a in text:
			o['at'][a] = text.pop(a)
	# anything else shown is unexpected
	o['at'].update({'extra:' + a: v for a, v in text.items()})
	return o


class StyleWorld:
	def __init__(self, rng, tables):
		self.rng, self.tables = rng, tables
		self.styles, self.kind, self.events = {}, {}, []
		self.opacity = {}

	def record(self, e, fn):
		value, res = guarded(fn)
		e['res'] = dict(res, o='-')
		if res['k'] == 'ok' and value is not None:
			name, kind, style = value
			e['fresh'] = all(style is not s for s in self.styles.values()) and type(style).__name__ == dict(node='NodeStyle', edge='EdgeStyle')[kind]
			self.styles[name], self.kind[name] = style, kind
			if e.get('how') == 'pickle' and e['op'] == 'copy' and zlib.crc32(repr(e['s']).encode() + bytes([len(self.events)])) % 4 == 0:
				# as text, here and where texts hash differently
				def digests():
					data = pickle.dumps(self.styles[e['s']])
					return [elsewhere.digest_of_style(style)] + elsewhere.ask(what='pickled style', pickle=data.hex())
				e['dig'], _ = guarded(digests)
		if e['op'] in ('new', 'copy', 'invert') and value is None:
			e['fresh'] = False
		obs = {}
		for n, s in self.styles.items():
			x, out = guarded(lambda: look(self.kind[n], s))
			if out['k'] == 'ok':
				obs[n] = x
		e['obs'] = obs
		self.events.append(e)

	def value(self, a):
		if a == 'lighter_fill':
			return self.rng.random() < .5
		return self.rng.choice(PLAIN_VALUES[a])

	def colour(self):
		name = self.rng.choice(list(self.tables.colours))
		given = self.rng.choice([name, Colour(name), hexa(Colour(name))])
		return self.tables.colours[name], given

	def new(self):
		rng = self.rng
		kind = rng.choice(['node', 'node', 'edge'])
		name = f's{len(self.styles) + len([x for x in self.events if x["op"] == "paint"])}_{len(self.events)}'
		e = dict(op='new', s=name, cls=kind, colour='n', fill='n', border='n', text='n', light='yes', at={})
		kw = {}
		for a, k in (('colour', 'colour'), ('fill_colour', 'fill'), ('border_colour', 'border'), ('text_colour', 'text')):
			if kind == 'edge' and k in ('fill', 'border'):
				continue
			if rng.random() < (.6 if k == 'colour' else .3):
				e[k], kw[a] = self.colour()
			elif rng.random() < .2:
				kw[a] = None
		if 'colour' not in kw:
			e['colour'] = self.tables.json['default']
		if kind == 'node' and rng.random() < .4:
			kw['lighter_fill'] = rng.random() < .4
			e['light'] = 'yes' if kw['lighter_fill'] else 'no'
		for a, k in PLAIN[kind].items():
			if rng.random() < .3:
				kw[k] = self.value(k)
				e['at'][a] = at_token(a, kw[k])
		cls = NodeStyle if kind == 'node' else EdgeStyle
		self.record(e, lambda: (name, kind, cls(**kw)))
		return name

	def item(self, kind):
		"""one attribute and its new value"""
		rng = self.rng
		if rng.random() < .6:
			a = rng.choice(['colour', 'text_colour'] if kind == 'edge' else ['colour', 'fill_colour', 'border_colour', 'text_colour'])
			if a != 'colour' and rng.random() < .15:
				return a, 'n', None
			t, given = self.colour()
			return a, t, given
		if kind == 'node' and rng.random() < .25:
			v = rng.random() < .5
			return 'lighter_fill', 'yes' if v else 'no', v
		a = rng.choice(list(PLAIN[kind]))
		v = self.value(PLAIN[kind][a])
		return a, at_token(a, v), v

	def step(self):
		rng = self.rng
		names = list(self.styles)
		x = rng.random()
		if not names or (x < .15 and len(names) < 4):
			return self.new()
		n = rng.choice(names)
		kind, style = self.kind[n], self.styles[n]
		if x < .4 and len(names) < 7:
			new = f'{n}.{len(self.events)}'
			op = rng.choice(['copy', 'copy', 'copy', 'invert'])
			how = rng.choice(['copy', 'deepcopy', 'pickle'])
			if op == 'invert':
				f = style.invert_colours
			else:
				f = dict(copy=style.copy, deepcopy=lambda: copy.deepcopy(style), pickle=lambda: pickle.loads(pickle.dumps(style, rng.choice([2, pickle.HIGHEST_PROTOCOL]))))[how]
			return self.record(dict(op=op, s=n, new=new, how=how), lambda: (new, kind, f()))
		if x < .65:
			a, t, v = self.item(kind)
			if a in ('colour', 'text_colour', 'fill_colour', 'border_colour'):
				if a == 'colour' and isinstance(v, Colour):
					v = Colour(obj=v)
				return self.record(dict(op='set', s=n, a=a, v=t), lambda: setattr(style, a, v))
			return self.record(dict(op='complement', s=n, items=[dict(a=a, v=t)]), lambda: style.complement({python_name(kind, a): v}))
		if x < .8:
			items = []
			given = {}
			for _ in range(rng.randrange(0, 4)):
				a, t, v = self.item(kind)
				if a not in [i['a'] for i in items]:
					items.append(dict(a=a, v=t))
					given[python_name(kind, a)] = v
			return self.record(dict(op='complement', s=n, items=items), lambda: style.complement(given))
		if x < .95:
			self.record(dict(op='reset', s=n), lambda: style.reset_colours())
			if rng.random() < .3:
				# the main colour among others, each counting from where it stands
				t, v = self.colour()
				items = [('colour', t, v)]
				for _ in range(rng.randrange(1, 3)):
					a, t, v = self.item(kind)
					if a not in [i[0] for i in items]:
						items.append((a, t, v))
				if kind == 'node' and rng.random() < .6 and 'lighter_fill' not in [i[0] for i in items]:
					v = rng.random() < .5
					items.append(('lighter_fill', 'yes' if v else 'no', v))
				rng.shuffle(items)
				given = {python_name(kind, a): v for a, t, v in items}
				self.record(dict(op='complement', s=n, items=[dict(a=a, v=t) for a, t, v in items]), lambda: style.complement(given))
			elif rng.random() < .8:
				t, v = self.colour()
				self.record(dict(op='set', s=n, a='colour', v=t), lambda: setattr(style, 'colour', v))
			return
		# change a colour object in place; the style is left alone afterwards
		c = rng.choice([a for a in ('colour', 'text_colour') + (() if kind == 'edge' else ('fill_colour', 'border_colour'))])
		if getattr(style, c) is None:
			return
		def paint():
			getattr(style, c).saturation = 0.25
		self.record(dict(op='paint', s=n), paint)
		self.events[-1]['obs'].setdefault(n, {})
		del self.styles[n]


class StyleReplay:
	"""leads real styles through a transition of StyleModel: the path to it, then the operation itself"""
	def __init__(self, rng):
		self.rng, self.tables = rng, Tables()
		self.states = {}

	def history(self, t, k):
		rng = self.rng
		w = StyleWorld(rng, self.tables)
		names = rng.sample(list(self.tables.colours), 2)
		self.hues = dict(r=names[0], b=names[1])
		for e in path(self.states, t['at']) + [t['e']]:
			self.step(w, e)
			if w.events[-1]['res']['k'] != 'ok':
				break
		return dict(id=f'{k}', ev=w.events, tables=self.tables.json)

	def colour(self, t):
		"""a colour of the model as the trace shows it, and as it is given"""
		if t == 'n':
			return 'n', None
		name = self.hues[t]
		return self.tables.colours[name], self.rng.choice([name, Colour(name), hexa(Colour(name))])

	def step(self, w, e):
		e = dict(e)
		rng, op = self.rng, e['op']
		if op == 'new':
			kw = {}
			for a, k in (('colour', 'colour'), ('fill_colour', 'fill'), ('border_colour', 'border'), ('text_colour', 'text')):
				e[k], v = self.colour(e[k])
				if v is not None or (rng.random() < .2 and not (e['cls'] == 'edge' and k in ('fill', 'border'))):
					kw[a] = v
			if 'colour' not in kw:
				if rng.random() < .6:
					kw['colour'] = None
				else:
					e['colour'] = self.tables.json['default']
			if e['cls'] == 'node' and (e['light'] == 'no' or rng.random() < .3):
				kw['lighter_fill'] = e['light'] == 'yes'
			e['at'] = {}
			cls = NodeStyle if e['cls'] == 'node' else EdgeStyle
			return w.record(e, lambda: (e['s'], e['cls'], cls(**kw)))
		style, kind = w.styles[e['s']], w.kind[e['s']]
		if op in ('copy', 'invert'):
			e['how'] = rng.choice(['copy', 'deepcopy', 'pickle'])
			f = style.invert_colours if op == 'invert' else dict(copy=style.copy, deepcopy=lambda: copy.deepcopy(style),
				pickle=lambda: pickle.loads(pickle.dumps(style)))[e['how']]
			return w.record(e, lambda: (e['new'], kind, f()))
		if op == 'reset':
			return w.record(e, lambda: style.reset_colours())
		if op == 'set':
			e['v'], v = self.colour(e['v'])
			return w.record(e, lambda: setattr(style, e['a'], v))
		items, given = [], {}
		for x in e['items']:
			a = x['a']
			if a.endswith('colour'):
				t, v = self.colour(x['v'])
			elif a == 'lighter_fill':
				t, v = x['v'], x['v'] == 'yes'
			else:
				t, v = x['v'], None if x['v'] == 'n' else x['v']
			items.append(dict(a=a, v=t))
			given[python_name(kind, a)] = v
		w.record(dict(e, items=items), lambda: style.complement(given))


def python_name(kind, a):
	return PLAIN[kind].get(a, a)


def at_token(a, v):
	if v is None:
		return 'n'
	return str(v)


def style_histories(rng, count):
	tables = Tables()
	for k in range(count):
		w = StyleWorld(rng, tables)
		for _ in range(rng.randrange(4, 14)):
			w.step()
		yield dict(id=f'styles-{k}', ev=w.events, tables=tables.json)
