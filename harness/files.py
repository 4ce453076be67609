"""Histories of renderings to files (G23), each in a folder of its own that is removed afterwards."""
import contextlib
import shutil
import subprocess
import tempfile
from pathlib import Path
from xml.etree import ElementTree

from drivers import *
from replay import path as path_to

MAGIC = [('png', b'\x89PNG'), ('pdf', b'%PDF'), ('eps', b'%!PS-Adobe-3.0 EPSF'), ('ps', b'%!PS'), ('gif', b'GIF8'), ('jpg', b'\xff\xd8\xff'), ('svg', b'<?xml'), ('webp', b'RIFF'),
	('dot', b'digraph '), ('dot', b'strict digraph '), ('json', b'{'), ('plain', b'graph ')]
EXTENSIONS = ['png'] * 4 + ['svg'] * 6 + ['pdf', 'jpg', 'jpeg', 'gif', 'ps', 'PNG', 'SVG', 'Png', 'PDF', 'JPG', 'GIF', 'dot', 'gv', 'DOT', 'json', 'plain', 'webp', 'eps', 'jpe']
STEMS = ['graph', 'a', 'a', 'my graph', 'v1.2', 'x.png', '.hidden', 'sub/a', 'sub/deeper/a', 'dotted.dir/a', 'dotted.dir/b.c', 'a_b-c', '100%', 'svg', "it's"]
EXACT = ('png', 'svg', 'gif', 'jpg', 'dot', 'gv', 'json', 'plain', 'webp')


def kind_of(data):
	for kind, magic in MAGIC:
		if data.startswith(magic):
			return kind
	return 'other'


def listing(folder):
	result = {}
	for root, dirs, names in os.walk(folder):
		for n in names:
			p = os.path.join(root, n)
			with open(p, 'rb') as f:
				data = f.read()
			result[esc(os.path.relpath(p, folder))] = dict(kind=kind_of(data), sum=hashlib.sha1(data).hexdigest()[:12])
	return result


def digest(data):
	return hashlib.sha1(data if isinstance(data, bytes) else data.rstrip('\n').encode()).hexdigest()[:12]


def drawn(text, fmt, exact):
	"""what Graphviz itself makes of the text"""
	if not exact:
		return 'any'
	p = subprocess.run(['dot', '-T' + fmt], input=text.encode(), capture_output=True, timeout=60)
	return digest(p.stdout)


def read_svg(data):
	no = dict(ok=False, nodes=[], edges=[], w=0, h=0)
	try:
		root = ElementTree.fromstring(data)
	except ElementTree.ParseError:
		return no
	ns = '{http://www.w3.org/2000/svg}'
	out = dict(ok=True, nodes=[], edges=[], w=round(float(root.get('width')[:-2])), h=round(float(root.get('height')[:-2])))
	for g in root.iter(ns + 'g'):
		if g.get('class') in ('node', 'edge'):
			out['nodes' if g.get('class') == 'node' else 'edges'].append(esc(g.find(ns + 'title').text))
	return out


def content(g):
	reg = Registry()
	s = snapshot(g, reg)['p']
	return digest(json.dumps(s))


class FileWorld:
	"""two graphs made alike: one is rendered to files, the other one tells what the rendering has to show"""
	def __init__(self, rng, folder, graph, twin):
		self.rng, self.folder, self.graph, self.twin, self.events = rng, folder, graph, twin, []
		self.stems = rng.sample(STEMS, 5)

	def plain(self, op, **e):
		"""an event that is no rendering"""
		self.events.append(dict(op=op, res=dict(k='ok', o='-', w=0), obs=dict(files=listing(self.folder)), **e))

	def put(self, path):
		os.makedirs(os.path.dirname(os.path.join(self.folder, path)), exist_ok=True)
		with open(os.path.join(self.folder, path), 'w') as f:
			f.write(f'{path} {len(self.events)}')
		self.plain('put', path=esc(path))

	def step(self, op=None, path=None):
		"""op, path: chosen at random when not given"""
		rng, g = self.rng, self.graph
		kw = {}
		if rng.random() < .3:
			kw['direction'] = rng.choice(['LR', 'TB', 'RL', 'BT', 'tb'])
		if rng.random() < .3:
			kw['pad'] = rng.choice([0, 0.1, 0.5, 1])
		size = {}
		if rng.random() < .5:
			size['width'] = rng.choice([1, 2, 3, 2.5, 5])
		if rng.random() < .5:
			size['height'] = rng.choice([1, 2, 3, 2.5, 5])
		if rng.random() < .3:
			size['dpi'] = rng.choice([72, 100, 300])
		ext = rng.choice(EXTENSIONS)
		stem = rng.choice(self.stems)
		if path is not None:
			stem, _, ext = path.rpartition('.')
		to_file = rng.random() < .75 if op is None else op == 'render_to'
		e = dict(op='render_to' if to_file else op or rng.choice(['render', 'get_svg', 'repr_html']), path='-', stem='-', ext='-', w=0, h=0,
			nodes=[esc(str(n.name)) for n in g.nodes], edges=[esc(f'{x.start.name}->{x.end.name}') for x in g.edges])
		if to_file:
			path = f'{stem}.{ext}'
			e.update(path=esc(path), stem=esc(stem), ext=ext, w=int(size.get('width', 0) * 72), h=int(size.get('height', 0) * 72))
			where = path if rng.random() < .6 else os.path.join(self.folder, path)
			if rng.random() < .2:
				where = Path(where)
		self.twin.stylize()
		before = content(self.twin)

		def fn():
			if to_file:
				return g.render(path=where, view=False, **kw, **size).source
			if e['op'] == 'render':
				return g.render(view=rng.random() < .5, **kw, **size).source
			if e['op'] == 'repr_html':
				kw.clear()
				return g._repr_html_()      # what a notebook shows
			return g.get_svg(**kw, **size)
		value, res = guarded(fn)
		e['res'] = dict(res, o='-')
		files = listing(self.folder)
		obs = dict(files=files, before=before, after=content(g), source='', plain='', image='any', expected='any', svg=dict(ok=False))
		if res['k'] == 'ok':
			text = self.twin.get_graphviz_str(**kw)
			plain_ = g.render(**kw).source
			obs['plain'] = digest(plain_)
			if e['op'] in ('get_svg', 'repr_html'):
				obs['source'] = obs['plain']
				obs['svg'] = read_svg(value)
				obs['image'], obs['expected'] = digest(value.encode()), drawn(text, 'svg', True)
				if obs['image'] != obs['expected']:
					obs['svg'] = dict(ok=True, nodes=[], edges=[], w=0, h=0)
			else:
				obs['source'] = digest(value)
			real = os.path.join(self.folder, unquote(e['path']))
			if to_file and e['path'] in files:
				sized = {k: v for k, v in size.items() if k != 'dpi'}
				fmt = ext.lower().replace('jpeg', 'jpg').replace('jpe', 'jpg')
				obs['expected'] = drawn(self.twin.get_graphviz_str(**kw, **sized), fmt, fmt in EXACT)
				with open(real, 'rb') as f:
					data = f.read()
				obs['image'] = digest(data) if fmt in EXACT else 'any'
				if fmt == 'svg':
					obs['svg'] = read_svg(data)
					if not obs['svg']['ok']:
						obs['image'] = 'unreadable'
		e['obs'] = obs
		self.events.append(e)

	def change(self):
		rng, g = self.rng, self.graph
		names = [n.name for n in g.nodes]
		x = rng.random()
		if x < .3 or not names:
			label = rng.choice([None, 'label', '"quoted"'])
			self.both(lambda g: g.add_node(f'n{len(self.events)}{len(names)}', label=label, if_node_exists='ignore'))
		elif x < .8:
			a, b, value = rng.choice(names), rng.choice(names), rng.choice([None, 1, 2])
			self.both(lambda g: g.connect(a, b, value=value, if_edge_exists='ignore'))
		else:
			a = rng.choice(names)
			self.both(lambda g: g.remove_node(a))

	def both(self, change):
		for g in (self.graph, self.twin):
			change(g)


class FileReplay:
	"""leads a real folder through a transition of FileModel"""
	def __init__(self, rng):
		self.rng, self.states = rng, {}

	def history(self, t, i):
		rng = self.rng
		with own_folder() as folder:
			w = FileWorld(rng, folder, Graph(), Graph())
			w.both(lambda g: g.add_node('a'))
			for x in path_to(self.states, t['at']) + [t['e']]:
				if x['op'] == 'put':
					w.put(x['path'])
				elif x['op'] == 'change':
					w.both(lambda g: g.add_node(f'n{len(w.events)}'))
					w.plain('change')
				else:
					w.step(x['op'], x.get('path'))
			return dict(id=str(i), ev=w.events, files={})


@contextlib.contextmanager
def own_folder():
	home = os.getcwd()
	folder = os.path.realpath(tempfile.mkdtemp(prefix='verif-files-'))
	os.chdir(folder)
	try:
		yield folder
	finally:
		os.chdir(home)
		shutil.rmtree(folder, ignore_errors=True)


def file_histories(rng, count):
	for k in range(count):
		with own_folder() as folder:
			yield file_history(rng, k, folder)


def file_history(rng, k, folder):
	if rng.random() < .6:
		for n in rng.sample(['other.txt', 'a.txt', 'graph.svg', 'sub/keep.png', 'notes'], 3):
			os.makedirs(os.path.dirname(os.path.join(folder, n)), exist_ok=True)
			with open(os.path.join(folder, n), 'w') as f:
				f.write(n)
	n = rng.randrange(0, 7)
	kw = dict(strict=rng.random() < .3, direction=rng.choice(['LR', 'LR', 'TB']), stylist=rng.choice(['pensieve', 'random']), ordering=rng.random() < .5)
	w = FileWorld(rng, folder, Graph(**kw), Graph(**kw))
	for i in range(n):
		name, label = chr(97 + i) if rng.random() < .7 else f'node {i}', rng.choice([None, None, 'x y', '"q"'])
		w.both(lambda g: g.add_node(name, label=label))
	for _ in range(2 * n):
		if n:
			w.change()
	files = listing(folder)
	for _ in range(rng.randrange(2, 6)):
		w.step()
		if rng.random() < .5:
			w.change()
	return dict(id=f'files-{k}', ev=w.events, files=files)
