"""Writes known_findings.json: open findings (none) and the defects repaired by fix: commits."""
import json
import os
FIXED = [
	('G09', '22516d5', "filter(direction='to'/'from') ignored its direction and always kept both sides"),
	('G20', 'f87209c', 'testing whether a node object is in a graph raised instead of answering'),
	('G20', '2804c9b', 'two edges with the same extra id but different ends were equal under != while unequal under =='),
	('G01', '3fcc430', 'add_node(node) of a removed node returned None and left the node without a graph'),
	('G02', '71d133f', 'add_node with an integer name raised, and an unsupported kind of name was accepted or failed obscurely'),
	('G21', '7b438bd', 'is_similar_to raised KeyError when node names or edge keys differed'),
	('G22', '54d7b2f', 'pickling or deep-copying a style lost attributes and raised KeyError for opacity'),
	('G22', '7c77806', 'style copies lost label_style, lighter_fill and unset colours'),
	('G22', '193c756', 'a fill or border colour chosen after construction was overwritten as if derived'),
	('G21', 'b09d892', 'is_similar_to compared styles by object identity, so that no styled graph was similar to its copy'),
	('G08', '1df4bc4', 'copies and pickles lost settings, so that they could not be rendered, styled or labelled'),
	('G04', 'bceea7c', 'distances missed ancestors and descendants or gave longer paths, and long chains overflowed the stack'),
	('G15', '16c4799', 'depth-limited object traversal missed objects within the limit and reported longer distances'),
	('G16', 'd810c5a', 'from_object raised for shared children and cycles'),
	('G10', '922bddc', '__graph__ failed for graphs with edges, lost labels and shared style objects'),
	('G24', '2e41a4d', 'edge style overrides were lost or failed, and overrides of removed nodes and edges stopped rendering'),
	('G11', 'dcdb46a', 'adding graphs took one operand twice, dropped zero values and colour overrides and shuffled nodes'),
	('G13', '42a8d8f', 'rendering a graph with a loop entered from outside raised, because its loop nodes got no style'),
	('G13', 'ca6dd92', 'the arrow size of an edge grew with the values of the edges before it; text values broke rendering'),
	('G13', 'fe87c47', 'rendering twice with the random stylist raised or replaced explicit styles'),
	('G24', '79d88bb', 'a graph with a graph-wide style could not be rendered twice or with styled nodes'),
	('G13', 'acc420f', 'an empty graph with an automatic node shape could not be rendered'),
	('G24', '700901e', 'NodeStyle and EdgeStyle objects as graph-wide styles were rejected'),
	('G12', 'cb430f4', 'quotes in names, labels, values and tooltips changed the structure of the DOT text or were lost'),
	('G23', 'cdf1471', 'rendering to a path saved a PDF whatever the extension'),
	('G18', '70c971c', 'outlines starting with an empty line failed, text was altered, and tabs and spaces were mixed up'),
	('G01', 'd3e78c0', 'constructing a node or edge that already exists orphaned the edges of the old one'),
	('G13', '4b9e99a', 'the pensieve stylist took exponential time on layered graphs and overflowed the stack on long chains'),
	('G19', '08abc6f', 'the tree text of a long chain of nodes overflowed the stack'),
	('G12', '73b8ee3', 'special characters in a graph label with a background colour broke the DOT text'),
	('G24', '9b21f5e', 'rendering changed the edge style objects given in a graph description'),
	('G24', 'e20edc3', 'an edge or node override changed a style object that other edges or nodes share'),
	('G22', '883215f', 'inverting the colours of a style after reset_colours raised AttributeError or kept the inverted colour as an explicit one'),
	('G23', 'd89f959', 'rendering to a path with an upper-case extension (x.PNG) raised CalledProcessError'),
	('G21', 'df643b5', 'a graph with a NaN value was not similar to itself or to its copy'),
	('G13', 'eac471f', 'an integer edge value too large for a float made rendering raise OverflowError'),
	('G12', '81f567d', 'a graph label in angle brackets that is no HTML string broke the DOT text or changed its structure'),
	('G12', '835619e', 'a label, name or tooltip longer than 16384 characters could not be read by Graphviz, so that rendering failed'),
	('G12', '7462ea6', 'a graph label with a background colour and no location (label_location=None) stopped rendering'),
	('G21', '5fbf538', 'comparing graphs whose values cannot be compared as a whole (arrays) or with others raised'),
	('G24', 'c6dd2ed', 'a NodeStyle object as override of the style of one node stopped rendering'),
]
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
with open(path, 'w') as f:
	json.dump(dict(open=[], fixed=[f'fixed: property={p} {c} {w}' for p, c, w in FIXED]), f, indent=1)
	f.write('\n')
