"""What each property's check does."""
import drivers as d
import observe as ob
import builders as bd
import outlines as ol
import styles as st
import files as fs
import models as md
import overrides as ov
import rendering as rd
from drivers import Gen, plain, LETTERS, NAMES


def query_plan(q, n_small=3, n4=(300, 6000), n_random=(250, 4000), n_mut=(150, 2500), **kw):
	def plan(r):
		hs = d.query_histories(r.rng('q'), q, n_small, r.scale(*n_random), r.scale(*n_mut), n4=r.scale(*n4), **kw)
		r.check_traces('queries', 'GraphTrace', hs)
		md.queries(q)(r)
		r.check_model('graph theory', 'MCDigraph', 'SPECIFICATION Spec\nINVARIANTS Reach Layers Loops Roots Converse Certificates Looks\nCHECK_DEADLOCK FALSE\nCONSTANT N = %d\n' % r.scale(3, 4))
		r.check_traces('large graphs', 'GraphTrace', d.large_histories(r.rng('large'), q))
	return plan


def g01(r):
	md.structure(r)
	r.check_traces('mutations', 'GraphTrace', d.structure_histories(r.rng('m'), r.scale(600, 12000)))
	r.check_traces('hubs', 'GraphTrace', d.hub_histories(r.rng('hub')))


def g02(r):
	md.structure(r, ['add_node', 'connect'])
	md.attributes(r, ['add_node', 'connect'])
	r.check_traces('mutations', 'GraphTrace', d.structure_histories(r.rng('m'), r.scale(600, 12000)))


def hist_plan(driver, quick, thorough, model=None, long=()):
	def plan(r):
		if model:
			model(r)
		r.check_traces('histories', 'GraphTrace', driver(r.rng('h'), r.scale(quick, thorough)))
		if long:
			r.check_traces('long graph', 'GraphTrace', d.long_history(r.rng('long'), *long))
	return plan


def g12(r):
	md.texts(r)
	r.check_traces('dot', 'RenderTrace', rd.dot_histories(r.rng('d'), r.scale(500, 8000)))


def g13(r):
	md.looks(r)
	r.check_traces('renderings', 'RenderTrace', rd.style_histories(r.rng('s'), r.scale(150, 5000), r.scale(150, 4000), r.scale(120, 3000)))


def g24(r):
	md.overrides(r)
	r.check_traces('overrides', 'OverrideTrace', ov.override_histories(r.rng('o'), r.scale(700, 12000)))


def g15(r):
	md.objects(['ancestors', 'descendants'], ['plain', 'value', 'unhashable'], True)(r)
	r.check_traces('traversals', 'BuildersTrace', bd.traversal_histories(r.rng('t'), r.scale(300, 6000), r.scale(300, 6000)))


def g16(r):
	md.objects(['from_object'], ['plain', 'value'], False)(r)
	r.check_traces('builders', 'BuildersTrace', bd.builder_histories(r.rng('b'), r.scale(200, 4000), r.scale(250, 5000)))


def g17(r):
	r.check_model('coins', 'RandomModel', '''SPECIFICATION Spec
INVARIANTS Sound Ends Acyclic Ended
POSTCONDITION Counted
CHECK_DEADLOCK FALSE
CONSTANT MaxN = 3
''', workers=1, expect_states=1189)
	r.check_traces('random graphs', 'BuildersTrace', bd.random_graph_histories(r.rng('g'), r.scale(300, 6000)))


def g18(r):
	r.check_model('outline design', 'MCOutline', '''SPECIFICATION Spec
INVARIANTS Agree Tree Prefixes
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxLines = %d
  MaxBlanks = 2
''' % r.scale(4, 5), expect_states=1000)
	r.check_traces('outlines', 'OutlineTrace', ol.outline_histories(r.rng('l'), r.scale(600, 1649), r.scale(500, 8000)))


def g22(r):
	md.styles(r)
	r.check_traces('styles', 'StyleTrace', st.style_histories(r.rng('y'), r.scale(1200, 30000)))


def g23(r):
	md.files(r)
	r.check_traces('files', 'FileTrace', fs.file_histories(r.rng('f'), r.scale(80, 1500)))


WITH_MODEL = 'G01 G02 G03 G04 G05 G06 G07 G08 G09 G10 G11 G12 G13 G14 G15 G16 G17 G18 G19 G20 G21 G22 G23 G24'

PLANS = dict(
	G23=g23,
	G22=g22,
	G18=g18,
	G15=g15, G16=g16, G17=g17,
	G24=g24,
	G12=g12, G13=g13,
	G01=g01, G02=g02, G03=query_plan(ob.q03), G04=query_plan(ob.q04), G05=query_plan(ob.q05, n4=(150, 4000)), G06=query_plan(ob.q06),
	G07=query_plan(ob.q07), G19=query_plan(ob.q19, NAMES=LETTERS),
	G08=hist_plan(d.twin_histories, 250, 5000, md.copies, ['copy', 'deepcopy', 'pickle4', 'pickle2']), G09=hist_plan(d.filter_histories, 250, 5000, md.filters, ['filter']),
	G10=hist_plan(d.conversion_histories, 500, 10000, md.pairs(['build', 'append_graph']), ['build', 'append_graph']), G11=hist_plan(d.sum_histories, 600, 12000, md.pairs(['sum']), ['sum']),
	G14=hist_plan(d.frozen_histories, 500, 10000, md.attributes), G20=hist_plan(d.order_histories, 250, 5000, md.orders), G21=hist_plan(d.similar_histories, 400, 8000, md.pairs(['sim']), ['sim']),
)
