"""Recording harness: drives the real idin/abstract through its public API and writes down what it does.

Nothing here decides anything: every recorded event is judged by the TLA+ trace specifications in ../spec.
Values are turned into opaque ASCII tokens so that TLC compares them by equality only.
"""
import copy
import hashlib
import io
import itertools
import json
import os
import pickle
import random
import resource
import signal
import sys
import warnings
from ast import literal_eval
from contextlib import redirect_stdout, redirect_stderr
from urllib.parse import quote, unquote

REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
	sys.path.insert(0, REPO)
sys.dont_write_bytecode = True

from abstract import Graph, Node, Edge, get_ancestors, get_descendants  # noqa: E402
from abstract.styling.NodeStyle import NodeStyle  # noqa: E402
from abstract.styling.EdgeStyle import EdgeStyle  # noqa: E402

OP_SECONDS = int(os.environ.get('VERIF_OP_SECONDS', '20'))


class OpTimeout(BaseException):
	pass


def _alarm(signum, frame):
	raise OpTimeout()


HUNG = [0]      # calls that did not come back in time, so far


signal.signal(signal.SIGALRM, _alarm)
signal.signal(signal.SIGPROF, _alarm)      # processor time, so that a busy machine does not look like a hanging call
signal.signal(signal.SIGVTALRM, _alarm)     # armed by the runner around each history
try:
	resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
except (ValueError, OSError):
	pass


# ---------------------------------------------------------------- tokens
def esc(text):
	return quote(text, safe='')


def tok(x):
	"""a Python value as an ASCII token; different values of the kinds the drivers use get different tokens"""
	if x is None:
		return 'n'
	if isinstance(x, bool):
		return f'b:{x}'
	if isinstance(x, int):
		return f'i:{x}'
	if isinstance(x, str):
		return 's:' + esc(x)
	if isinstance(x, float):
		return f'f:{x!r}'
	if isinstance(x, Tagged):
		return 'C(' + tok(x.left) + '|' + tok(x.right) + ')'
	if isinstance(x, (Array, Picky)):
		return ('a:' if isinstance(x, Array) else 'y:') + '.'.join(str(i) for i in x.items)
	if isinstance(x, (list, tuple, dict, set)):
		return 'j:' + esc(repr(x))
	return 'o:' + esc(type(x).__name__)


def untok(t):
	if t == 'n':
		return None
	kind, body = t.split(':', 1)
	if kind == 'b':
		return body == 'True'
	if kind == 'i':
		return int(body)
	if kind == 's':
		return unquote(body)
	if kind == 'f':
		return float(body)
	if kind in 'ay':
		return (Array if kind == 'a' else Picky)(int(i) for i in body.split('.'))
	if kind == 'j':
		return literal_eval(unquote(body))
	raise ValueError(t)


class Tagged:
	"""the result of a combining function, remembering both arguments in order"""
	def __init__(self, left, right):
		self.left, self.right = left, right

	def __eq__(self, other):
		return isinstance(other, Tagged) and (self.left, self.right) == (other.left, other.right)

	def __hash__(self):
		return 7


class Array:
	"""a value which is compared element by element, and has no truth value of its own unless it has one element"""
	__hash__ = None

	def __init__(self, items):
		self.items = list(items)

	def __repr__(self):
		return f'{type(self).__name__}({self.items})'

	def against(self, other, same):
		if isinstance(other, Array):
			if len(self.items) != len(other.items):
				return not same
			return Array((x == y) == same for x, y in zip(self.items, other.items))
		return Array((x == other) == same for x in self.items)

	def __eq__(self, other):
		return self.against(other, True)

	def __ne__(self, other):
		return self.against(other, False)

	def __bool__(self):
		if len(self.items) != 1:
			raise ValueError('the truth value of an array with more than one element is ambiguous')
		return bool(self.items[0])


class Text(str):
	"""a text of a class of its own, as the members of an enumeration of texts are"""


class Number(int):
	"""the same for integers"""


def derived(x):
	return Text(x) if isinstance(x, str) else Number(x)


class Picky:
	"""a value that refuses to be compared with others than its own kind"""
	def __init__(self, items):
		self.items = list(items)

	def __repr__(self):
		return f'{type(self).__name__}({self.items})'

	def __hash__(self):
		return 3

	def __eq__(self, other):
		if not isinstance(other, Picky):
			raise TypeError(f'cannot compare with {type(other)}')
		return self.items == other.items


# a palette of explicit styles, named by one letter; an observed style is named by the letter whose text it shows
NODE_STYLES = {
	'A': dict(colour='red'),
	'B': dict(colour='blue', shape='circle', text_size=12),
	'D': dict(colour='green', fill_colour='yellow', border_colour='black', text_colour='white', lighter_fill=False),
	'F': dict(fill_colour='pink', shape_style='filled', font='courier', opacity=0.5),
}
EDGE_STYLES = {
	'A': dict(colour='red'),
	'B': dict(colour='blue', line_width=3, text_size=12),
	'D': dict(colour='green', text_colour='black', arrow_size=2),
	'F': dict(text_colour='pink', opacity=0.5, label_style='above', font='courier'),
}


# what is no style of a node or an edge ('!')
NO_STYLES = itertools.cycle([
	lambda kind: 'red', lambda kind: {'no_such_attribute': 1}, lambda kind: EdgeStyle() if kind == 'n' else NodeStyle(), lambda kind: 5, lambda kind: ['red'],
])


def make_style(kind, letter, as_dict=False):
	if letter == '!':
		return next(NO_STYLES)(kind)
	kwargs = (NODE_STYLES if kind == 'n' else EDGE_STYLES)[letter]
	if as_dict:
		return dict(kwargs)
	return NodeStyle(**kwargs) if kind == 'n' else EdgeStyle(**kwargs)


_palette = {}


def style_token(style):
	if style is None:
		return '-'
	if not _palette:
		for kind, table in (('n', NODE_STYLES), ('e', EDGE_STYLES)):
			for letter in table:
				s = make_style(kind, letter)
				_palette[type(s).__name__ + s.get_graphviz_str()] = letter
	text = type(style).__name__ + style.get_graphviz_str()
	return _palette.get(text) or 'h' + hashlib.sha1(text.encode()).hexdigest()[:12]


def edge_key(s, e, r):
	return f'{tok(s)}>{tok(e)}#{tok(r)}'


def key_token(key):
	try:
		s, e, r = key
		return edge_key(s, e, r)
	except Exception:
		return 'bad:' + esc(repr(key))


PARAMS = ('p', 'q')


class Registry:
	"""names Python objects by order of first sight; keeps them alive, so that a name is never reused"""
	def __init__(self):
		self.ids = {}
		self.keep = []
		self.hashes = {}

	def __call__(self, obj):
		if obj is None:
			return '-'
		name = self.ids.get(id(obj))
		if name is None:
			name = self.ids[id(obj)] = f'#{len(self.keep)}'
			self.keep.append(obj)
		return name


def params_of(obj):
	result = {}
	for p in PARAMS:
		try:
			result[p] = tok(obj[p])
		except KeyError:
			pass
	return result


def label_of(obj, text):
	"""the label given to a node or edge; text: what it has to show as its label"""
	raw, shown = tok(obj.raw_label), tok(obj.label)
	return raw if shown == tok(text) else f'{raw}, shown as {shown}'


def listed(n, side, reg):
	"""the edges of a node on one side: as listed, their ids as listed, and each as found by its id"""
	edges, ids, get = (n.outward_edges, n.outward_edge_ids, n.get_outward_edge) if side == 'out' else (n.inward_edges, n.inward_edge_ids, n.get_inward_edge)
	return [[reg(x) for x in edges], [key_token(k) for k in ids], [reg(get(k)) for k in ids]]


def snapshot(g, reg):
	"""the whole observable content of a graph, through public accessors only

	p: the content, in the form of the specification's graphs; i: identities and listings; acc: accessors that failed
	"""
	nodes = list(g.nodes_dict.items())
	acc = []

	def listing(name, fn):
		try:
			return fn()
		except Exception as exc:
			acc.append(f'{name}:{type(exc).__name__}')
			return []

	p = dict(nodes=[], na={}, out={}, inn={}, ea={})
	i = dict(me=reg(g), n={}, out={}, inn={}, e={}, acc=acc)
	i['listed'] = listing('nodes', lambda: [[tok(n.name), reg(n)] for n in g.nodes])
	for name, n in nodes:
		t = tok(name)
		p['nodes'].append(t)
		p['na'][t] = dict(lab=label_of(n, str(n.raw_label or name)), val=tok(n.value), sty=style_token(n.style), frz=bool(n.is_frozen), par=params_of(n))
		i['n'][t] = dict(o=reg(n), g=reg(n.graph), nm=tok(n.name), id=tok(n.id), st=reg(n.style), hs=bool(n.has_style()))
	for name, n in nodes:
		t = tok(name)
		for side, table in (('out', n.outward_edges_dict), ('inn', n.inward_edges_dict)):
			ks = []
			os_ = []
			for key, edge in table.items():
				k = key_token(key)
				o = reg(edge)
				ks.append(k)
				os_.append(o)
				if o not in i['e']:
					s, e = edge.start, edge.end
					i['e'][o] = dict(k=key_token(edge.id), so=reg(s), eo=reg(e), g=reg(edge.graph), st=reg(edge.style), hs=bool(edge.has_style()))
					p['ea'].setdefault(k, dict(
						s=tok(s.name), e=tok(e.name), r=tok(edge.raw_id), lab=label_of(edge, edge.raw_label), val=tok(edge.value),
						sty=style_token(edge.style), frz=bool(edge.is_frozen), par=params_of(edge)
					))
			p[side][t] = ks
			i[side][t] = dict(o=os_, l=listing(side, lambda: listed(n, side, reg)))
		i['n'][t]['all'] = listing('node.edges', lambda: [reg(x) for x in n.edges])
	i['edges'] = listing('edges', lambda: [reg(x) for x in g.edges])
	i['ed'] = listing('edges_dict', lambda: [[key_token(k), reg(x)] for k, x in g.edges_dict.items()])
	i['ns'] = listing('node_styles', lambda: [[tok(k), reg(x)] for k, x in g.node_styles.items()])
	i['es'] = listing('edge_styles', lambda: [[key_token(k), reg(x)] for k, x in g.edge_styles.items()])
	hdr = ''
	try:
		hdr = g.get_graphviz_header()
	except Exception as exc:
		hdr = f'!{type(exc).__name__}'
	p['set'] = dict(strict=hdr.startswith('strict'), ord='ordering=out' not in hdr, hdr=hashlib.sha1(hdr.encode()).hexdigest()[:10])
	return dict(ok=True, p=p, i=i)


def dot_hash(g):
	return hashlib.sha1(g.get_graphviz_str().encode()).hexdigest()[:12]


def guarded(fn, seconds=OP_SECONDS):
	"""runs one call; returns (result, outcome record)"""
	with warnings.catch_warnings(record=True) as caught:
		warnings.simplefilter('always')
		signal.setitimer(signal.ITIMER_PROF, seconds)
		signal.alarm(seconds * 6)
		try:
			value = fn()
			out = dict(k='ok', x='-')
		except OpTimeout:
			value, out = None, dict(k='timeout', x='timeout')
			HUNG[0] += 1
		except RecursionError:
			value, out = None, dict(k='exc', x='RecursionError')
		except Exception as exc:
			value, out = None, dict(k='exc', x=type(exc).__name__)
		finally:
			signal.setitimer(signal.ITIMER_PROF, 0)
			signal.alarm(0)
	out['w'] = sum(1 for c in caught if not issubclass(c.category, (DeprecationWarning, ResourceWarning)))
	return value, out


def safe_snapshot(g, reg):
	snap, out = guarded(lambda: snapshot(g, reg))
	if out['k'] != 'ok':
		return dict(ok=False, x=out['x'])
	return snap


def write_ndjson(path, rows):
	with open(path, 'w') as f:
		for row in rows:
			f.write(json.dumps(row, separators=(',', ':')) + '\n')
