"""What the real graph answers to each question, as plain data for the trace specification."""
from core import *


def names(nodes):
	return [tok(n.name) for n in nodes]


def number(x):
	return x if isinstance(x, int) and not isinstance(x, bool) and abs(x) < 2 ** 31 else -999


def truth(x):
	return bool(x)


def groups(d):
	return [[number(k), names(v)] for k, v in d.items()]


def pick(g, which):
	return [n for n in g.nodes if which is None or tok(n.name) in which]


def q03(g, which=None):
	r = {}
	for n in pick(g, which):
		r[tok(n.name)] = dict(
			anc=names(n.ancestors), anc2=names(g.get_ancestors(n.name, distance=False)),
			desc=names(n.descendants), desc2=names(g.get_descendants(node=n.name, distance=False)), nd=number(n.num_descendants)
		)
	return dict(n=r)


def q04(g, which=None):
	r = {}
	for n in pick(g, which):
		r[tok(n.name)] = dict(
			anc=groups(g.get_ancestors(n)), anc2=groups(g.get_ancestors(n.name, distance=True)),
			desc=groups(g.get_descendants(n.name)), desc2=groups(g.get_descendants(n, distance=True))
		)
	return dict(n=r)


def q05(g, which=None):
	nodes = pick(g, which)
	pairs = []
	for a in nodes:
		for b in nodes:
			pairs.append([tok(a.name), tok(b.name), [
				truth(a.is_in_loop_with(b)), truth(g.are_nodes_in_same_loop(a.name, b.name)), truth(g.are_nodes_in_same_loop(a, b)),
				truth(g.are_nodes_in_same_loop(a.name, b)), truth(g.are_nodes_in_same_loop(a, b.name)), truth(a.is_in_loop_with(b.name))
			]])
	edges = [[key_token(k), truth(e.is_in_loop())] for n in nodes for k, e in n.outward_edges_dict.items()]
	return dict(
		asked=names(nodes), loop=names(n for n in nodes if n.is_in_loop()), loop2=names(n for n in nodes if g.is_node_in_loop(n.name)),
		loop3=names(g.loop_nodes), pairs=pairs, edges=edges
	)


def q06(g, which=None):
	return dict(roots=names(g.roots), abs=names(g.absolute_roots), leaves=names(g.leaves))


def keys(edges):
	return [key_token(e.id) for e in edges]


def q07(g, which=None):
	r = {}
	nodes = pick(g, which)
	for n in nodes:
		x = n.name
		rank = []
		for p in nodes:
			try:
				a = number(n.get_child_rank(p))
			except Exception:
				a = -1
			rank.append([tok(p.name), a])
		num = [number(v) for v in (g.num_parents(x), g.num_children(x), g.num_siblings(x), g.num_spouses(x), n.num_outward_edges)]
		has = [
			[truth(g.has_parents(x)), truth(g.has_children(x)), truth(g.has_siblings(x)), truth(g.has_spouses(x))],
			[truth(n.has_parents()), truth(n.has_children()), truth(g.has_siblings(n)), truth(g.has_spouses(n))],
			[truth(g.has_parents(n)), truth(g.has_children(n)), g.num_siblings(n) > 0, g.num_spouses(n) > 0],
		]
		r[tok(x)] = dict(
			par=names(n.parents), par2=names(g.get_parents(x)), chi=names(n.children), chi2=names(g.get_children(x)),
			sib=names(n.siblings), sib2=names(g.get_siblings(x)), spo=names(n.co_parents), spo2=names(g.get_spouses(x)),
			num=num, has=has, rank=rank, same=[tok(v) for v in (g.get_node_name(x), g.get_node_name(n), g.get_node(x).name, g.get_node(n).name)],
			edg=[keys(g.get_outward_edges(x)), keys(g.get_inward_edges(x)), keys(g.get_edges(x))]
		)
	return dict(n=r)


DRAW = str.maketrans({'\u2514': 'L', '\u251C': 'T', '\u2502': 'I'})


def lines_of(text):
	return [x.translate(DRAW) for x in text.split('\n') if x != '']


def q19(g, which=None):
	lab = {tok(n.name): n.label for n in g.nodes}
	back = {v: k for k, v in lab.items()}
	whole = lines_of(g.get_tree_str())
	shown = []
	for line in whole:
		text = line
		while text[:2] in ('I ', '  ', 'L ', 'T '):
			text = text[2:]
		if text.endswith('*'):
			text = text[:-1]
		shown.append(back.get(text, '?'))
	return dict(
		whole=whole, shown=shown, lab=lab, roots=names(g.roots),
		trees=[[tok(n.name), lines_of(n.get_tree_str())] for n in pick(g, which)]
	)


def cmp20(g, reg, others=()):
	nodes = g.nodes
	r = []

	def s(x):
		return 'T' if x is True else 'F' if x is False else 'other'

	for a in nodes:
		for b in nodes:
			r.append(dict(
				a=tok(a.name), b=tok(b.name), eq=s(a == b), ne=s(a != b), lt=s(a < b), gt=s(a > b), le=s(a <= b), ge=s(a >= b),
				h=s(hash(a) == hash(b))
			))
	es = []
	edges = [e for n in nodes for e in n.outward_edges_dict.values()]
	for a in edges[:8]:
		for b in edges[:8]:
			es.append(dict(a=key_token(a.id), b=key_token(b.id), eq=s(a == b), ne=s(a != b), h=s(hash(a) == hash(b))))
	import random as _r
	shuffled = list(nodes)
	_r.Random(len(nodes)).shuffle(shuffled)
	# objects hash as they did when first seen, whatever was done to them since
	for x in [*nodes, *edges]:
		reg.hashes.setdefault(reg(x), hash(x))
	moved = [reg(x) for x in reg.keep if reg(x) in reg.hashes and guarded(lambda: hash(x))[0] != reg.hashes[reg(x)]]
	# nodes of other graphs, as far as their names can be compared
	cross = []
	for a in nodes[:6]:
		for b in others:
			if any(isinstance(a.name, t) and isinstance(b.name, t) for t in (str, int)):
				cross.append(dict(eq=s(a == b), ne=s(a != b), lt=s(a < b), gt=s(a > b), le=s(a <= b), ge=s(a >= b), h=s(hash(a) == hash(b))))
	return dict(nodes=r, edges=es, sorted=names(sorted(shuffled)), moved=moved, cross=cross)


def in20(g, reg, name_tokens, objs):
	def s(x):
		return 'T' if x is True else 'F' if x is False else 'other'
	return dict(names=[[t, s(untok(t) in g)] for t in name_tokens], objs=[[reg(o), s(o in g)] for o in objs])


def sim21(a, b, pairs_n, pairs_e):
	def s(x):
		return 'T' if x is True else 'F' if x is False else 'other'
	ns, es = [], []
	for x, y in pairs_n:
		ns.append(dict(a=tok(x.name), b=tok(y.name), ab=s(x.is_similar_to(y)), ba=s(y.is_similar_to(x))))
	for x, y in pairs_e:
		es.append(dict(a=key_token(x.id), b=key_token(y.id), ab=s(x.is_similar_to(y)), ba=s(y.is_similar_to(x))))
	return dict(
		ab=s(a.is_similar_to(b)), ba=s(b.is_similar_to(a)), aa=s(a.is_similar_to(a)), bb=s(b.is_similar_to(b)), nodes=ns, edges=es
	)


def declarations(g):
	"""the declaration of each node and of each edge, as tokens: used only to compare a graph with a part of it"""
	def short(x):
		return hashlib.sha1(guarded(x.get_graphviz_str)[0].__repr__().encode('utf-8', 'surrogatepass')).hexdigest()[:10]
	return [{tok(n.name): short(n) for n in g.nodes}, {key_token(k): short(e) for n in g.nodes for k, e in n.outward_edges_dict.items()}]


def digest(g):
	"""every answer of a graph in one token: used only to compare a copy with its original"""
	parts = []
	nodes = g.nodes
	large = len(nodes) > 60
	which = {tok(n.name) for n in (nodes[0], nodes[len(nodes) // 2], nodes[-1])} if large else None
	for q in (q03, q04, q07) if large else (q03, q04, q05, q06, q07):
		_, out = guarded(lambda: parts.append(q(g, which)))
		parts.append(out)
	for f in (lambda: g.get_tree_str(), lambda: g.get_graphviz_str(), lambda: g.get_graphviz_header()):
		value, out = guarded(f)
		parts.append([value, out])
	g2 = None
	return hashlib.sha1(json.dumps(parts, sort_keys=True).encode()).hexdigest()[:16]
