"""Drives the real code through the transitions that TLC found in the model AbstractGraph.

Each printed transition is: a path of operations from the initial state (p), the state it leads to (h, gone), and one
operation (e).  The replay performs the path on real graphs, records the state reached, which the trace specification compares
with the model's (clause "the-model's-state-is-reached"), then performs and records the operation, which it judges like any other.
Details the model leaves open (node given by name or by object, which method connects, ...) are chosen at random here.
"""
import json
import tempfile
from array import array

from drivers import *

class States:
	"""a state: its operations from the start, its graphs"""
	def __init__(self, read):
		self.read, self.at, self.known = read, {}, {}

	def __getitem__(self, i):
		if i not in self.known:
			if len(self.known) > 50000:
				self.known.clear()
			self.known[i] = self.read(self.at[i])
		return self.known[i]


class Printed:
	"""what a model prints: its states and its transitions (operation and outcome, state it starts from), kept in a file"""
	def __init__(self):
		self.file = tempfile.TemporaryFile()
		self.size = 0
		self.states = States(self.read)
		self.kinds = {}

	def take(self, line):
		if line[:3] not in (b'"@@', b'"##'):
			return False
		text = line.rstrip()[3:-1].decode().replace('\\"', '"').replace('\\\\', '\\')
		x = json.loads(text)
		if line[1:2] == b'#':
			self.states.at[x['id']] = self.size
		else:
			self.kinds.setdefault((x['e']['op'], x['out']), array('Q')).append(self.size)
		data = text.encode() + b'\n'
		self.file.write(data)
		self.size += len(data)
		return True

	def read(self, at):
		self.file.seek(at)
		return json.loads(self.file.readline())


def path(states, i):
	ops = []
	while i:
		ops.append(states[i]['op'])
		i = states[i]['from']
	return ops[::-1]


def cfg_text(invariants, properties, **constants):
	def show(v):
		if isinstance(v, bool):
			return 'TRUE' if v else 'FALSE'
		if isinstance(v, int):
			return str(v)
		if isinstance(v, str):
			return f'"{v}"'
		return '{' + ', '.join(f'"{x}"' for x in v) + '}'
	return (
		'SPECIFICATION Spec\nVIEW View\nCHECK_DEADLOCK FALSE\n' +
		''.join(f'INVARIANT {x}\n' for x in invariants) + ''.join(f'PROPERTY {x}\n' for x in properties) +
		'CONSTANTS\n' + ''.join(f'  {k} = {show(v)}\n' for k, v in constants.items())
	)


def concrete(rng, w, e, ow):
	"""the model's operation as an event of the recording harness"""
	e = dict(e)
	ch = lambda *xs: xs[rng.randrange(len(xs))]
	op = e['op']
	if 'a' in e:
		e['a'] = dict(e['a'], par=dict(e['a']['par'] or {}))
	if op == 'add_node':
		e['sd'] = ch(True, False)
		if e['pol'] == 'warn':
			e['pol'] = ch('warn', 'default')
	elif op == 'add_obj':
		node = w.gone_nodes[-e.pop('back')]   # counted from the one removed last
		e.update(o=w.reg(node), og=w.reg(node.graph), name=tok(node.name), at=attributes_of(node))
	elif op == 'rm_node':
		e['by'] = ch('name', 'obj')
	elif op == 'connect':
		e['sd'] = ch(True, False)
		if e['pol'] == 'warn':
			e['pol'] = ch('warn', 'default')
		here = {tok(n.name) for n in w.graphs[e['g']].nodes}
		e['sb'] = ch('name', 'obj') if e['s'] in here else 'name'
		e['eb'] = ch('name', 'obj') if e['e'] in here else 'name'
		if e['how'] == 'graph' and e['s'] in here and e['e'] in here:
			e['how'] = ch('graph', 'to', 'from')
	elif op == 'gset':
		e['o'] = w.reg(w.gone_nodes[-e.pop('back')])
	elif op == 'set':
		e['sd'] = ch(True, False)
		if e['f'] == 'p':
			e['how'] = ch('set', 'item')
	elif op in ('copy', 'copy1'):
		e['op'] = 'copy'
		e['how'] = ch(*HOWS)
	elif op == 'filter':
		e['by'] = [ch('name', 'obj') for _ in e['names']]
		if e['dir'] == 'to_and_from':
			e['dir'] = ch('to_and_from', 'default')
		if e['typ'] == 'include':
			e['typ'] = ch('include', 'default')
	elif op == 'build':
		e.update(how=ch('graph', 'dict', 'from_dict', 'append', 'described'), src=['-', '-'])
	elif op == 'append_graph':
		e.update(form=ch(*FORMS), src=['-', '-'])
	return e


class Replay:
	def __init__(self, rng, ow, q=None, every=False):
		self.rng, self.ow, self.q, self.every = rng, ow, q, every
		self.states = {}

	def history(self, t, k):
		rng, ow = self.rng, self.ow
		t = dict(t, p=path(self.states, t['at']), h=self.states[t['at']]['h'])
		gen = Gen(rng, pars=False)
		w = gen.w
		for g in sorted(t['h']):
			if not any(e['op'] == 'copy' and e['g2'] == g for e in t['p']):
				new = dict(op='new', g=g, strict=False, ord=False, ow='y' if ow else 'n', conv=False, kw={})
				w.do(new) if self.every else guarded(w.call(new))
		try:
			for e in t['p']:
				self.step(gen, dict(e)) if self.every else self.walk(gen, dict(e))
			reached = True
		except (LookupError, RuntimeError, AttributeError) as exc:
			# the real graph is not where the model is: the comparison of the two says so
			reached = False
		if not self.every:
			w.finish(dict(op='load'), None)
		load = dict(
			op='load', g=sorted(t['h'])[0], res=dict(k='ok', x='-', w=0, o='-'), post=dict(w.snaps), gone={}, model=t['h'],
			ows={g: 'y' if ow else 'n' for g in w.graphs}
		)
		if self.every:
			w.events.append(dict(load, post={}))
		else:
			w.events = [load]
		if reached and matches_keys(w, t['h']):
			try:
				self.step(gen, dict(t['e']))
			except (LookupError, RuntimeError, AttributeError):
				pass
		return w.history(f'{k}')

	def walk(self, gen, e):
		"""one step of the path, unobserved"""
		w = gen.w
		e = concrete(self.rng, w, e, self.ow)
		node = w.graphs[e['g']].nodes_dict[untok(e['name'])] if e['op'] == 'rm_node' else None
		guarded(w.call(e))
		if node is not None and node.graph is None:
			w.gone_nodes.append(node)
		if e['op'] == 'add_obj':
			w.gone_nodes = [n for n in w.gone_nodes if n.graph is None]

	def step(self, gen, e):
		w = gen.w
		op = e['op']
		if op == 'query':
			return w.observe(dict(op='query', g=e['g']), lambda: self.q(w.graphs[e['g']], None))
		if op == 'cmp':
			g = w.graphs[e['g']]
			w.observe(dict(op='cmp', g=e['g']), lambda: ob.cmp20(g, w.reg))
			objs = [o for o in w.reg.keep if isinstance(o, Node)]
			return w.observe(dict(op='in', g=e['g']), lambda: ob.in20(g, w.reg, NAMES[:8], objs[:30]))
		if op == 'sim':
			return sim(gen, e['g'], e['g2'])
		if op == 'sum':
			return gen.sum(e['g'], e['g2'])
		if op == 'gset':
			return loose(w, concrete(self.rng, w, e, self.ow))
		if op == 'copy1':
			return copy_as(gen, e['g'], e['g2'])
		e = concrete(self.rng, w, e, self.ow)
		if op == 'copy':
			return copy_as(gen, e['g'], e['g2'], e['how'])
		return w.do(e)


def copy_as(gen, g, g2, how=None):
	w = gen.w

	def extra(value):
		return dict(dig=[ob.digest(w.graphs[g]), ob.digest(w.graphs[g2]) if g2 in w.graphs else '-'])
	return w.do(dict(op='copy', g=g, g2=g2, how=how or gen.ch(HOWS)), extra)


def matches_keys(w, h):
	return set(h) <= set(w.snaps) and all(w.snaps[g]['ok'] for g in h)
