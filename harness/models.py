"""The bounded instances of the model AbstractGraph, and which transitions of each are led through the real code."""
import observe as ob
from replay import Replay, cfg_text
from styles import StyleReplay
from overrides import OverReplay
from rendering import RenderReplay
from builders import ObjectReplay
from files import FileReplay

POLS = ['warn', 'ignore', 'error']
STRUCTURE = ['add_node', 'add_obj', 'rm_node', 'strip', 'connect', 'disconnect']
INV = ['Announced', 'AlwaysConsistent']
PROPS = ['OnlyTheNamedGoes', 'OrderKept', 'OneObjectChanges', 'FrozenStable', 'FrozenStableOutside', 'StyleStable', 'OthersUntouched', 'CopyIsEqual']
DIRS, TYPES = ['to', 'from', 'to_and_from', 'none'], ['include', 'exclude']


def base(**kw):
	c = dict(
		Graphs=['g1'], Copies=[], Names=['s:a', 'i:0'], Ids=['n'], Labs=['n'], Vals=['n'], Stys=['-'], Pols=['ignore'], Hows=['graph'],
		Ops=STRUCTURE, Watch=[], MaxNodes=2, MaxEdges=2, MaxGone=0, MaxMarked=0, Overwrite=False, Dirs=[], Types=[], Emit=True
	)
	c.update(kw)
	return c


def structure(r, watch=STRUCTURE):
	"""every operation on the structure from every small structure, removed objects coming back included"""
	kw = dict(Ids=['n', 'i:0'], Pols=POLS, Hows=['graph', 'ctor'], Watch=watch, MaxGone=1)
	c = base(**kw) if r.quick else base(**dict(kw, MaxEdges=3))
	r.check_replay('structure', cfg_text(INV, PROPS, **c), Replay(r.rng('structure'), False), r.scale(1500, None))
	if not r.quick:
		c = base(**dict(kw, Names=['s:a', 'i:0', 's:b'], Ids=['n'], MaxNodes=3, MaxEdges=3, MaxGone=2))
		r.check_replay('structure of three', cfg_text(INV, PROPS, **c), Replay(r.rng('structure3'), False), 150000)


def attributes(r, watch=('add_node', 'connect', 'freeze', 'set', 'add_obj', 'gset')):
	"""every assignment, update, freeze and protected style from every small combination of attributes"""
	ops = ['add_node', 'connect', 'freeze', 'set', 'rm_node', 'disconnect', 'add_obj']
	for ow in (False, True):
		name = f'attributes{" overwritable" if ow else ""}'
		c = base(
			Names=['s:a'], MaxNodes=1, MaxEdges=1, Labs=['n', 's:'], Vals=['n', 'i:0', 's:v'], Stys=['-', 'A', 'B', '!'],
			Pols=POLS, Ops=ops, Watch=list(watch), Overwrite=ow, MaxMarked=r.scale(1, 2)
		)
		r.check_replay(name, cfg_text(INV, PROPS, **c), Replay(r.rng(name), ow), r.scale(700, 60000))
		if not r.quick or ('gset' in watch and not ow):
			# removed objects come back with what they had, or were given meanwhile
			c = base(
				Names=['s:a'], MaxNodes=1, MaxEdges=1, Labs=r.scale(['n'], ['n', 's:L']), Vals=['n', 'i:0'], Stys=['-', 'A'],
				Pols=['ignore'], Ops=ops + ['gset'], Watch=r.scale(['gset', 'add_obj'], list(watch)), Overwrite=ow, MaxMarked=1, MaxGone=1
			)
			r.check_replay(name + ', coming back', cfg_text(INV, PROPS, **c), Replay(r.rng(name + '2'), ow), r.scale(250, 60000))


def copies(r):
	"""a graph and its copy, living on separately"""
	c = base(
		Names=r.scale(['s:a'], ['s:a', 's:b']), MaxNodes=r.scale(1, 2), MaxEdges=1, Copies=['g2'], Vals=['n', 'i:0'], Stys=['-', 'A'], MaxMarked=1, Overwrite=True,
		Ops=['add_node', 'connect', 'rm_node', 'disconnect', 'freeze', 'set', 'copy'] + r.scale([], ['param']),
		Watch=['add_node', 'connect', 'rm_node', 'disconnect', 'freeze', 'set', 'param', 'copy'],
	)
	r.check_replay('copies', cfg_text(INV, PROPS, **c), Replay(r.rng('copies'), True), r.scale(1500, 100000))


def filters(r):
	c = base(Names=['s:a', 's:b', 's:c'], MaxNodes=3, MaxEdges=r.scale(2, 3), Ops=['add_node', 'connect', 'filter'], Watch=['filter'], Dirs=DIRS, Types=TYPES)
	r.check_replay('filters', cfg_text(INV + ['FilterLaws'], PROPS, **c), Replay(r.rng('filters'), False), r.scale(1500, 200000))


def queries(q):
	def part(r):
		c = base(Names=['s:a', 's:b', 's:c'], MaxNodes=3, MaxEdges=r.scale(2, 3), MaxGone=r.scale(0, 1), Ops=STRUCTURE + ['query'], Watch=['query'])
		r.check_replay('questions', cfg_text(INV + ['QueriesAgree'], PROPS, **c), Replay(r.rng('questions'), False, q=q, every=True), r.scale(400, 20000), expect=50)
	return part


def orders(r):
	c = base(Names=['s:a', 's:b', 's:c'], MaxNodes=3, MaxEdges=1, MaxGone=2, Ops=STRUCTURE + ['cmp'], Watch=['cmp'])
	r.check_replay('orders', cfg_text(INV, PROPS, **c), Replay(r.rng('orders'), False, every=True), r.scale(400, 20000), expect=50)


def pairs(ops):
	def part(r):
		c = base(
			Graphs=['g1', 'g2'], Names=r.scale(['s:a'], ['s:a', 's:b']), MaxNodes=r.scale(1, 2), MaxEdges=1, Vals=['n', 'i:0', 'i:5'], Stys=['-', 'A', 'B'],
			Labs=r.scale(['n'], ['n', 's:L']), MaxMarked=2, Ops=['add_node', 'connect', *ops], Watch=ops
		)
		r.check_replay('pairs', cfg_text(INV + ['SumLaws', 'RoundTrip'], PROPS, **c), Replay(r.rng('pairs'), False), r.scale(1200, 100000))
	return part


STYLE_OPS = ['new', 'copy', 'invert', 'set', 'complement', 'reset']


def styles(r):
	"""every operation on style objects from every small heap of styles"""
	births = ['plain', 'main', 'part', 'full']
	for name, quick, thorough, kw in (
		('one node style', 900, None, dict(Kind='node', Births=births, Given=r.scale(['r'], ['r', 'b']), Plains=['egg'], Items=r.scale(1, 2), MaxStyles=1)),
		('one edge style', 500, None, dict(Kind='edge', Births=births, Given=['r', 'b'], Plains=['above', 'n'], Items=2, MaxStyles=1)),
		('two node styles', 900, 60000, dict(Kind='node', Births=['main', 'full'], Given=['r'], Plains=[], Items=0, MaxStyles=2)),
		('two edge styles', 500, None, dict(Kind='edge', Births=births, Given=['r'], Plains=['above'], Items=1, MaxStyles=2)),
	):
		cfg = cfg_text(['Announced', 'Whole', 'ResetIsNew', 'InvertedTwice'], ['OthersUntouched', 'NotNamedNotChanged', 'ChosenStays', 'CopyIsEqual'],
			Ops=STYLE_OPS, Watch=STYLE_OPS, Emit=True, **kw)
		r.check_replay(name, cfg, StyleReplay(r.rng(name)), r.scale(quick, thorough), model='StyleModel', trace='StyleTrace')


def overrides(r):
	"""every call about overrides from every small way of having given some"""
	base = dict(Graphs=['g1'], Names=['a'], Ids=['n'], Edges=['a>a'], Absent=[], Wides=['none', 'dict', 'style'], Permits=['y', 'n'], Looks=['none', 'p'])
	ops = ['new', 'append', 'wide', 'rm_node', 'disconnect', 'render', 'copy', 'build']
	for name, quick, thorough, kw in (
		('nodes', 500, None, dict(Edges=[], Ops=ops)),
		('edges', 500, 40000, dict(Wides=['none', 'dict'], Looks=['none'], Ops=ops) if r.quick else dict(Ops=ops)),
		('ends', 300, 40000, dict(Names=['a', 'b'], Edges=['a>b'], Wides=['none'], Permits=['y'], Looks=['none'], Ops=ops) if r.quick else
			dict(Names=['a', 'b'], Edges=['a>b'], Ids=['n', 'x'], Wides=['none'], Permits=['y'], Looks=['none'], Ops=ops)),
		('absent', 150, 20000, dict(Edges=[], Absent=['z'], Wides=['none'], Permits=['y'], Ops=ops)),
		('sums', 300, 40000, dict(Graphs=['g1', 'g2'], Edges=r.scale([], ['a>a']), Wides=['none'], Permits=r.scale(['y'], ['y', 'n']), Looks=r.scale(['none', 'p'], ['none']), Ops=['sum'])),
	):
		c = dict(base, **kw)
		cfg = cfg_text(['Announced', 'Sound', 'RenderIsStable', 'Layers', 'OneShows', 'ConversionLooksTheSame', 'SumLooks'], ['OthersUntouched', 'OverridesStay'],
			**c, Watch=['sum'] if name == 'sums' else ops, Emit=True)
		r.check_replay(name, cfg, OverReplay(r.rng(name)), r.scale(quick, thorough), model='OverrideModel', trace='OverrideTrace')


def looks(r):
	"""renderings from every small graph, some nodes and edges with a style or with the look of an earlier rendering"""
	ops = ['add_node', 'connect', 'rm_node', 'disconnect', 'add_obj', 'render']
	c = base(Names=['s:a', 's:b', 's:c'], MaxNodes=3, MaxEdges=r.scale(2, 3), MaxGone=0, Ops=ops, Watch=['render'], MaxMarked=100)
	r.check_replay('after renderings', cfg_text(INV + ['RenderLaws'], PROPS, **c), RenderReplay(r.rng('looks'), False), r.scale(700, 30000), model='AbstractGraph', trace='RenderTrace')
	c = base(Names=['s:a', 's:b'], Stys=['-', 'A'], MaxNodes=2, MaxEdges=r.scale(1, 2), MaxGone=1, Ops=ops, Watch=ops, MaxMarked=100)
	r.check_replay('explicit styles', cfg_text(INV + ['RenderLaws'], PROPS, **c), RenderReplay(r.rng('looks2'), False), r.scale(700, 30000), model='AbstractGraph', trace='RenderTrace')


def texts(r):
	"""the DOT text of every small graph, whatever it went through"""
	c = base(Names=['s:a', 's:b', 's:c'], Ids=r.scale(['n'], ['n', 'i:0']), MaxNodes=3, MaxEdges=2, MaxGone=1, Ops=STRUCTURE + ['text'], Watch=['text'])
	r.check_replay('structures', cfg_text(INV, PROPS, **c), RenderReplay(r.rng('texts'), True), r.scale(400, 20000), trace='RenderTrace')
	c = base(Names=['s:a', 's:b'], Labs=['n', 's:L'], Vals=['n', 'i:5'], MaxMarked=2, MaxNodes=2, MaxEdges=1, Ops=['add_node', 'connect', 'set', 'render', 'text'], Watch=['text'])
	r.check_replay('labels', cfg_text(INV, PROPS, **c), RenderReplay(r.rng('texts2'), True), r.scale(300, 20000), trace='RenderTrace')


def objects(watch, kinds, disagreeing):
	"""every question about every small world of objects, reached by making and breaking links"""
	def part(r):
		def one(name, quick, thorough, **kw):
			c = dict(dict(Objects=['a', 'b', 'c'], MaxLinks=3, Times=1, Sides=['both']), **kw)
			limits = [0, 1, 2] if len(c['Objects']) < 4 else [1, 2, 3]
			cfg = cfg_text(['Announced', 'WalkSound', 'WalkAnswers', 'AnswerLaws', 'GraphLaws'], ['WalkEnds', 'WorldStays'], **c, Watch=watch, Emit=True)
			cfg += '  Limits = {' + ', '.join(map(str, limits)) + '}\n'
			r.check_replay(name, cfg, ObjectReplay(r.rng(name), c['Objects'], kinds), r.scale(quick, thorough), model='ObjectModel', trace='BuildersTrace')
		one('three objects', 800, 40000, MaxLinks=r.scale(3, 4))
		one('doubled links', 400, 20000, Objects=['a', 'b'], MaxLinks=r.scale(3, 4), Times=2)
		if disagreeing:
			one('disagreeing lists', 500, 20000, Objects=['a', 'b'], MaxLinks=r.scale(2, 3), Times=1, Sides=['up', 'down'])
		if not r.quick:
			one('four objects', None, 40000, Objects=['a', 'b', 'c', 'd'], MaxLinks=3)
	return part


def files(r):
	"""every rendering into every small folder"""
	paths, foreign = ['a.png', 'a.svg', 'a.svg.png'], ['a', 'a.svg']
	if not r.quick:
		paths, foreign = paths + ['a.SVG', 'sub/a.svg'], foreign + ['a.png', 'sub/b']
	cfg = cfg_text(['Announced', 'ImageThere', 'Again', 'EitherOrder', 'NotAhead'], ['OthersKept'], Paths=paths, Foreign=foreign, Versions=2,
		Watch=['render_to', 'render', 'get_svg', 'change'], Emit=True)
	r.check_replay('folders', cfg, FileReplay(r.rng('folders')), r.scale(40, 1500), model='FileModel', trace='FileTrace')
