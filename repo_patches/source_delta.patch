From 22516d5caa010240fb00b777e9e371c848c46693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:50 +0000
Subject: [PATCH 01/42] fix: filter honours its direction argument

---
 abstract/_BasicGraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 040afaa..04d788e 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -79,11 +79,11 @@ class BasicGraph:
 			node = self.get_node(node=x)
 			name = node.name
 			relatives[name] = 1
-			if direction == 'to' or 'to_and_from':
+			if direction in ('to', 'to_and_from'):
 				for ancestor in node.ancestors:
 					relatives[ancestor.name] = 1
 
-			if direction == 'from' or 'to_and_from':
+			if direction in ('from', 'to_and_from'):
 				for descendant in node.descendants:
 					relatives[descendant.name] = 1
 
-- 
2.43.0


From f87209c2ec1f7e103490d69485547bacf20c03ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:51 +0000
Subject: [PATCH 02/42] fix: testing whether a node object is in a graph no
 longer raises

---
 abstract/_BasicGraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 04d788e..c1747a5 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -190,6 +190,8 @@ class BasicGraph:
 		Returns:
 			bool: True if the item is in the graph, False otherwise.
 		"""
+		if isinstance(item, Node):
+			return self._nodes_dict.get(item.id) is item
 		return item in self._nodes_dict
 
 	@property
-- 
2.43.0


From 2804c9b5cd97cde0c1433dd9717d179375cdafba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 03/42] fix: edges with the same extra id but different ends
 are unequal under != as well

---
 abstract/_GraphObj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index 31a9672..f488619 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -138,7 +138,7 @@ class GraphObj:
 			raise TypeError(f'"{other}" is of type: {type(other)}')
 		if self.graph != other.graph:
 			raise ValueError('two GraphObj from different graphs cannot be compared')
-		return self.raw_id != other.raw_id
+		return self.id != other.id
 
 	def is_similar_to(self, other):
 		"""
-- 
2.43.0


From 3fcc430e917678aca32aad4bea92b5e7d50b0973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 04/42] fix: add_node(node) returns the node and links a
 re-added node to the graph

---
 abstract/_BasicGraph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index c1747a5..bdf9eab 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -308,7 +308,7 @@ class BasicGraph:
 			if node.id in self.nodes_dict:
 				# if the node is already in the graph and node.graph is self then do nothing
 				if node.graph is self and self.nodes_dict[node.id] is node:
-					pass
+					return node
 				else:
 					raise ValueError(f'node with id "{node.id}" is already in a graph!')
 			else:
@@ -317,6 +317,7 @@ class BasicGraph:
 						raise ValueError(f'node with id "{node.id}" is already in a graph but not in the graph dictionary: {self.nodes_dict.keys()}')
 					else:
 						raise ValueError(f'node with id "{node.id}" is already in a graph!')
+				node._graph = self
 				self.nodes_dict[node.id] = node
 				return node
 		else:
-- 
2.43.0


From 71d133f3fc9f14651774b2bc0b0b6b228b6455b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:53 +0000
Subject: [PATCH 05/42] fix: add_node accepts integer names like get_node does,
 and raises TypeError for other types

---
 abstract/_BasicGraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index bdf9eab..9684b78 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -277,7 +277,7 @@ class BasicGraph:
 		Returns:
 			Node: The created node.
 		"""
-		if isinstance(name, str):
+		if isinstance(name, (str, int)):
 			if name in self.nodes_dict:
 				if if_node_exists == 'ignore':
 					pass
@@ -321,7 +321,7 @@ class BasicGraph:
 				self.nodes_dict[node.id] = node
 				return node
 		else:
-			raise TypeError(f'node of type {type(node)} is not supported!')
+			raise TypeError(f'node of type {type(name)} is not supported!')
 
 	def remove_node(self, node: Union[str, Node]):
 		"""
-- 
2.43.0


From 7b438bd1fc15fe47c504b3db9ff50810bf31e435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:53 +0000
Subject: [PATCH 06/42] fix: is_similar_to answers False instead of raising
 KeyError when names or edges differ

---
 abstract/Node.py        | 8 ++++++--
 abstract/_BasicGraph.py | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/abstract/Node.py b/abstract/Node.py
index 63f52f1..ba8555e 100755
--- a/abstract/Node.py
+++ b/abstract/Node.py
@@ -120,11 +120,15 @@ class Node(GraphObj):
 		if len(self._inward_edges_dict) != len(other._inward_edges_dict):
 			return False
 		for id, outward_edge in self._outward_edges_dict.items():
-			other_outward_edge = other._outward_edges_dict[id]
+			other_outward_edge = other._outward_edges_dict.get(id)
+			if other_outward_edge is None:
+				return False
 			if not outward_edge.is_similar_to(other=other_outward_edge):
 				return False
 		for id, inward_edge in self._inward_edges_dict.items():
-			other_inward_edge = other._inward_edges_dict[id]
+			other_inward_edge = other._inward_edges_dict.get(id)
+			if other_inward_edge is None:
+				return False
 			if not inward_edge.is_similar_to(other=other_inward_edge):
 				return False
 		return True
diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 9684b78..84edc95 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -751,7 +751,9 @@ class BasicGraph:
 			return False
 
 		for name, node in self._nodes_dict.items():
-			other_node = other._nodes_dict[name]
+			other_node = other._nodes_dict.get(name)
+			if other_node is None:
+				return False
 			if not node.is_similar_to(other=other_node):
 				return False
 
-- 
2.43.0


From 54d7b2fdcd8c8a9572816bd29f97d0d69edefd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 07/42] fix: pickling and deep-copying a style keep all of its
 attributes (opacity no longer raises KeyError)

---
 abstract/styling/EdgeStyle.py | 20 ++------------------
 abstract/styling/NodeStyle.py | 21 ++-------------------
 2 files changed, 4 insertions(+), 37 deletions(-)

diff --git a/abstract/styling/EdgeStyle.py b/abstract/styling/EdgeStyle.py
index bd2b272..928e6d6 100755
--- a/abstract/styling/EdgeStyle.py
+++ b/abstract/styling/EdgeStyle.py
@@ -111,26 +111,10 @@ class EdgeStyle:
 			self._text_colour_based_on_main_colour = False
 
 	def __getstate__(self):
-		return {
-			'_colour': self._colour,
-			'_opacity': self._opacity,
-			'_font': self._font,
-			'_text_colour': self._text_colour,
-			'_text_size': self._text_size,
-			'_arrow_size': self._arrow_size,
-			'_label_style': self._label_style,
-			'_line_width': self._line_width
-		}
+		return self.__dict__.copy()
 
 	def __setstate__(self, state):
-		self._colour = state['_colour']
-		self._opacity = state['_opacity']
-		self._font = state['_font']
-		self._text_colour = state['_text_colour']
-		self._text_size = state['_text_size']
-		self._arrow_size = state['_arrow_size']
-		self._label_style = state['_label_style']
-		self._line_width = state['_line_width']
+		self.__dict__.update(state)
 
 	@property
 	def _graphviz_dictionary(self):
diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index d48223d..e87fea2 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -162,27 +162,10 @@ class NodeStyle:
 			self._text_colour_based_on_main_colour = False
 
 	def __getstate__(self):
-		return {
-			'_colour': self._colour,
-			'_fill_colour': self._fill_colour,
-			'_border_colour': self._border_colour,
-			'_font': self._font,
-			'_text_colour': self._text_colour,
-			'_text_size': self._text_size,
-			'_shape': self._shape,
-			'_shape_style': self._shape_style
-		}
+		return self.__dict__.copy()
 
 	def __setstate__(self, state):
-		self._colour = state['_colour']
-		self._fill_colour = state['_fill_colour']
-		self._border_colour = state['_border_colour']
-		self._opacity = state['_opacity']
-		self._font = state['_font']
-		self._text_colour = state['_text_colour']
-		self._text_size = state['_text_size']
-		self._shape = state['_shape']
-		self._shape_style = state['_shape_style']
+		self.__dict__.update(state)
 
 	@property
 	def _graphviz_dictionary(self):
-- 
2.43.0


From 7c77806bd291b9766ff31ebbeadb05cf0e45a45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 08/42] fix: style copies keep label_style, lighter_fill and
 unset colours

---
 abstract/styling/EdgeStyle.py |  9 ++-------
 abstract/styling/NodeStyle.py | 11 ++---------
 2 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/abstract/styling/EdgeStyle.py b/abstract/styling/EdgeStyle.py
index 928e6d6..b052f4f 100755
--- a/abstract/styling/EdgeStyle.py
+++ b/abstract/styling/EdgeStyle.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from colouration import Colour
 
 
@@ -53,13 +54,7 @@ class EdgeStyle:
 		"""
 		:rtype: EdgeStyle
 		"""
-		result = self.__class__(
-			colour=self._colour, opacity=self._opacity,
-			font=self._font, text_colour=self._text_colour, text_size=self._text_size,
-			arrow_size=self._arrow_size, line_width=self._line_width
-		)
-		result._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour
-		return result
+		return deepcopy(self)
 
 	def invert_colours(self):
 		"""
diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index e87fea2..b039a30 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -1,3 +1,4 @@
+from copy import deepcopy
 from colouration import Colour
 
 
@@ -86,15 +87,7 @@ class NodeStyle:
 		"""
 		:rtype: NodeStyle
 		"""
-		result = self.__class__(
-			colour=self._colour, fill_colour=self._fill_colour, border_colour=self._border_colour,
-			opacity=self._opacity, font=self._font, text_colour=self._text_colour, text_size=self._text_size,
-			shape=self._shape, shape_style=self._shape_style
-		)
-		result._fill_colour_based_on_main_colour = self._fill_colour_based_on_main_colour
-		result._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour
-		result._border_colour_based_on_main_colour = self._border_colour_based_on_main_colour
-		return result
+		return deepcopy(self)
 
 	@property
 	def colour(self):
-- 
2.43.0


From 193c756e5f08611c4f628f5a7c849b7d3399e4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 09/42] fix: a fill or border colour chosen later counts as
 explicit, like a text colour does

---
 abstract/styling/NodeStyle.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index b039a30..6d1a91f 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -128,6 +128,7 @@ class NodeStyle:
 	def fill_colour(self, fill_colour):
 		if fill_colour is not None:
 			self._fill_colour = Colour(fill_colour)
+			self._fill_colour_based_on_main_colour = False
 
 	@property
 	def border_colour(self):
@@ -140,6 +141,7 @@ class NodeStyle:
 	def border_colour(self, border_colour):
 		if border_colour is not None:
 			self._border_colour = Colour(border_colour)
+			self._border_colour_based_on_main_colour = False
 
 	@property
 	def text_colour(self):
-- 
2.43.0


From b09d8925143bb7738cf3ea25be6764ed1ab29af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 10/42] fix: is_similar_to compares styles by what they are,
 not by identity

---
 abstract/_GraphObj.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index f488619..26b6308 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -147,7 +147,10 @@ class GraphObj:
 		"""
 		condition_1 = self.id == other.id
 		condition_2 = self._value == other._value
-		condition_3 = self._style == other._style
+		if self._style is None or other._style is None:
+			condition_3 = self._style is other._style
+		else:
+			condition_3 = self._style.get_graphviz_str() == other._style.get_graphviz_str()
 		condition_4 = self._parameters == other._parameters
 		return  condition_1 and condition_2 and condition_3 and condition_4
 
-- 
2.43.0


From 1df4bc4993e0e474dd98701652a0c1140dae4398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:55 +0000
Subject: [PATCH 11/42] fix: copied and pickled graphs keep all settings, so
 that they can be rendered, styled and labelled

---
 abstract/_BasicGraph.py          |  9 +++------
 abstract/_GraphWithoutDisplay.py | 10 ++++++++++
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 84edc95..7c3a7eb 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -31,15 +31,10 @@ class BasicGraph:
 		self._edge_label_converter = edge_label_converter
 		# if a dictionary or an object with a __graph__() method is passed use that to create the graph
 
-	_STATE_ATTRIBUTES = ['_nodes_dict', '_is_strict', '_ordering', '_node_counter']
-
 	#  for pickling and copying
 	def __getstate__(self) -> Dict:
 		"""Returns the state of the graph for pickling."""
-		state = {
-			attr: getattr(self, attr)
-			for attr in self._STATE_ATTRIBUTES
-		}
+		state = self.__dict__.copy()
 		state['_nodes_have_graph'] = False
 		return state
 
@@ -51,6 +46,8 @@ class BasicGraph:
 		if not self._nodes_have_graph:
 			for node in self.nodes:
 				node._graph = self
+				node.update_edges()
+			self._nodes_have_graph = True
 
 	# methods that return a new graph
 	def copy(self) -> 'BasicGraph':
diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 32f52b2..503c18b 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -3,6 +3,7 @@ from .styling.NodeStyle import NodeStyle
 from .styling.EdgeStyle import EdgeStyle
 from graphviz import Source
 import os
+from copy import deepcopy
 from functools import wraps
 import random
 from colouration import Colour
@@ -117,6 +118,15 @@ class GraphWithoutDisplay(BasicGraph):
 		state = super().__getstate__()
 		return state
 
+	def copy(self) -> 'GraphWithoutDisplay':
+		"""
+		Creates a copy of the graph. The colour scheme is never modified, so it is shared (a Scheme cannot be deep-copied).
+
+		Returns:
+			GraphWithoutDisplay: A copy of the graph.
+		"""
+		return deepcopy(self, {id(self._colour_scheme): self._colour_scheme})
+
 	def update_nodes(self):
 		"""Updates the nodes in the graph."""
 		if not self._nodes_have_graph:
-- 
2.43.0


From bceea7cab7f9664f34135a821a56ca3d05c46724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:41 +0000
Subject: [PATCH 12/42] fix: distances group every ancestor and descendant once
 by shortest path, and long chains no longer overflow the stack

---
 abstract/_BasicGraph.py | 108 +++++++++++++++++++++-------------------
 1 file changed, 57 insertions(+), 51 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 7c3a7eb..874f28b 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -499,34 +499,50 @@ class BasicGraph:
 		"""
 		return [node for node in self.nodes if not node.has_children()]
 
-	def _get_ancestors(self, node, nodes_travelled=None):
+	def _get_ancestors(self, node):
 		"""
 		:type node: Node or str
-		:type nodes_travelled: list[Node] or None
 		:rtype: list[Node]
 		"""
 		node = self.get_node(node)
-		nodes_travelled = nodes_travelled or []
-		nodes_travelled.append(node)
-		parents = self.get_parents(node=node)
-		if len(parents) == 0:
-			return [], {}
-		else:
-			ancestors = []
-			ancestors_dict = {1: []}
-			for parent in parents:
-				if parent not in ancestors:
-					ancestors.append(parent)
-					ancestors_dict[1].append(parent)
-
-				if parent not in nodes_travelled:
-					parent_ancestors, parent_ancestors_dict = self._get_ancestors(node=parent, nodes_travelled=nodes_travelled)
-					for ancestor in parent_ancestors:
-						if ancestor not in ancestors:
-							ancestors.append(ancestor)
-							for distance in parent_ancestors_dict.keys():
-								ancestors_dict[distance+1] = parent_ancestors_dict[distance]
-			return ancestors, ancestors_dict
+		ancestors = {}
+		travelled = {node.id}
+		# a stack of iterators instead of recursion: a chain of nodes can be longer than the recursion limit
+		stack = [iter(self.get_parents(node=node))]
+		while len(stack) > 0:
+			for parent in stack[-1]:
+				ancestors.setdefault(parent.id, parent)
+				if parent.id not in travelled:
+					travelled.add(parent.id)
+					stack.append(iter(self.get_parents(node=parent)))
+					break
+			else:
+				stack.pop()
+		return list(ancestors.values())
+
+	def _group_by_distance(self, node, get_relatives, include_self):
+		"""
+		groups the relatives of a node by the length of the shortest path to them
+		:type node: Node or str
+		:type get_relatives: callable
+		:param bool include_self: if True, a node in a loop is one of its own relatives
+		:rtype: dict[int,list[Node]]
+		"""
+		node = self.get_node(node)
+		result = {}
+		travelled = set() if include_self else {node.id}
+		level = [node]
+		while len(level) > 0:
+			next_level = []
+			for x in level:
+				for relative in get_relatives(node=x):
+					if relative.id not in travelled:
+						travelled.add(relative.id)
+						next_level.append(relative)
+			if len(next_level) > 0:
+				result[len(result) + 1] = next_level
+			level = next_level
+		return result
 
 	def get_ancestors(self, node, distance=True):
 		"""
@@ -534,11 +550,10 @@ class BasicGraph:
 		:param bool distance: if True, ancestors and their respective distance to the node will be returned as dict
 		:rtype: dict[int,list[Node]] or list[Node]
 		"""
-		ancestors, ancestors_dict = self._get_ancestors(node=node, nodes_travelled=None)
 		if distance:
-			return ancestors_dict
+			return self._group_by_distance(node=node, get_relatives=self.get_parents, include_self=True)
 		else:
-			return ancestors
+			return self._get_ancestors(node=node)
 
 	def is_node_in_loop(self, node):
 		node = self.get_node(node)
@@ -558,33 +573,25 @@ class BasicGraph:
 		"""
 		return [node for node in self.nodes if node.is_in_loop()]
 
-	def _get_descendants(self, node, nodes_travelled=None):
+	def _get_descendants(self, node):
 		"""
 		:type node: Node or str
-		:type nodes_travelled: list[Node] or None
 		:rtype: list[Node]
 		"""
 		node = self.get_node(node)
-		nodes_travelled = nodes_travelled or []
-		nodes_travelled.append(node)
-		children = self.get_children(node=node)
-		if len(children) == 0:
-			return [], {}
-		else:
-			descendants = []
-			descendants_dict = {1: []}
-			for child in children:
-				if child not in nodes_travelled:
-					if child not in descendants:
-						descendants.append(child)
-						descendants_dict[1].append(child)
-					child_descendants, child_descendants_dict = self._get_descendants(node=child, nodes_travelled=nodes_travelled)
-					for descendant in child_descendants:
-						if descendant not in descendants:
-							descendants.append(descendant)
-							for distance in child_descendants_dict.keys():
-								descendants_dict[distance+1] = child_descendants_dict[distance]
-			return descendants, descendants_dict
+		descendants = []
+		travelled = {node.id}
+		stack = [iter(self.get_children(node=node))]
+		while len(stack) > 0:
+			for child in stack[-1]:
+				if child.id not in travelled:
+					travelled.add(child.id)
+					descendants.append(child)
+					stack.append(iter(self.get_children(node=child)))
+					break
+			else:
+				stack.pop()
+		return descendants
 
 	def get_descendants(self, node, distance=True):
 		"""
@@ -592,11 +599,10 @@ class BasicGraph:
 		:param bool distance: if True, descendants and their respective distance to the node will be returned as dict
 		:rtype: dict[int,list[Node]] or list[Node]
 		"""
-		descendants, descendants_dict = self._get_descendants(node=node, nodes_travelled=None)
 		if distance:
-			return descendants_dict
+			return self._group_by_distance(node=node, get_relatives=self.get_children, include_self=False)
 		else:
-			return descendants
+			return self._get_descendants(node=node)
 
 	def get_siblings(self, node):
 		"""
-- 
2.43.0


From 16c4799d2541e06ff5675297844a8402db6957bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:42 +0000
Subject: [PATCH 13/42] fix: depth-limited object traversal finds every object
 within the limit and reports shortest distances

---
 abstract/get_ancestors.py   | 60 +++++++++++++++----------------------
 abstract/get_descendants.py | 47 +++--------------------------
 2 files changed, 28 insertions(+), 79 deletions(-)

diff --git a/abstract/get_ancestors.py b/abstract/get_ancestors.py
index 6f554b4..92e2cc1 100755
--- a/abstract/get_ancestors.py
+++ b/abstract/get_ancestors.py
@@ -1,44 +1,32 @@
-from typing import List, Dict, Optional, Tuple, Union
+from typing import Callable, List, Dict, Optional, Union
 
-def _get_ancestors(obj, _objects_travelled: Optional[List] = None, max_height: Optional[int] = None) -> Tuple[List, Dict]:
+
+def group_by_distance(obj, get_relatives: Callable, max_distance: Optional[int] = None) -> Dict:
 	"""
-	Retrieves the ancestors of an object.
+	Groups the objects that can be reached from an object by the length of the shortest path to them.
 
 	Args:
-		obj: The object to retrieve ancestors from.
-		_objects_travelled (Optional[List]): List of objects already travelled.
-		max_height (Optional[int]): Maximum height for travelling through objects' parents.
+		obj: The object to start from; it is not included in the result.
+		get_relatives (Callable): Gets the list of the next objects from an object.
+		max_distance (Optional[int]): Maximum distance to travel.
 
 	Returns:
-		Tuple[List, Dict]: A tuple containing a list of ancestors and a dictionary of ancestors with their distances.
+		Dict: A dictionary of the lists of objects at each distance.
 	"""
-	if max_height is not None:
-		if max_height <= 0:
-			return [], {}
-		else:
-			max_height -= 1
-	_objects_travelled = _objects_travelled or []
-	_objects_travelled.append(obj)
-	parents = obj.__parents__()
-	if len(parents) == 0:
-		return [], {}
-	else:
-		ancestors = []
-		ancestors_dict = {1: []}
-		for parent in parents:
-			if parent not in _objects_travelled:
-				if parent not in ancestors:
-					ancestors.append(parent)
-					ancestors_dict[1].append(parent)
-				parent_ancestors, parent_ancestors_dict = _get_ancestors(
-					obj=parent, _objects_travelled=_objects_travelled, max_height=max_height
-				)
-				for ancestor in parent_ancestors:
-					if ancestor not in ancestors:
-						ancestors.append(ancestor)
-						for distance in parent_ancestors_dict.keys():
-							ancestors_dict[distance + 1] = parent_ancestors_dict[distance]
-		return ancestors, ancestors_dict
+	result = {}
+	travelled = [obj]
+	level = [obj]
+	while len(level) > 0 and (max_distance is None or len(result) < max_distance):
+		next_level = []
+		for x in level:
+			for relative in get_relatives(x):
+				if relative not in travelled:
+					travelled.append(relative)
+					next_level.append(relative)
+		if len(next_level) > 0:
+			result[len(result) + 1] = next_level
+		level = next_level
+	return result
 
 
 def get_ancestors(obj, distance: bool = True, max_height: Optional[int] = None) -> Union[List, Dict]:
@@ -53,8 +41,8 @@ def get_ancestors(obj, distance: bool = True, max_height: Optional[int] = None)
 	Returns:
 		Union[List, Dict]: A list of ancestors or a dictionary of ancestors with their distances.
 	"""
-	ancestors, ancestors_dict = _get_ancestors(obj=obj, _objects_travelled=None, max_height=max_height)
+	ancestors_dict = group_by_distance(obj=obj, get_relatives=lambda x: x.__parents__(), max_distance=max_height)
 	if distance:
 		return ancestors_dict
 	else:
-		return ancestors
+		return [ancestor for ancestors in ancestors_dict.values() for ancestor in ancestors]
diff --git a/abstract/get_descendants.py b/abstract/get_descendants.py
index 4771e5e..64e0e1c 100755
--- a/abstract/get_descendants.py
+++ b/abstract/get_descendants.py
@@ -1,44 +1,5 @@
-from typing import List, Dict, Optional, Tuple, Union
-
-def _get_descendants(obj, _objects_travelled: Optional[List] = None, max_depth: Optional[int] = None) -> Tuple[List, Dict]:
-	"""
-	Retrieves the descendants of an object.
-
-	Args:
-		obj: The object to retrieve descendants from.
-		_objects_travelled (Optional[List]): List of objects already travelled.
-		max_depth (Optional[int]): Maximum depth for travelling through objects' children.
-
-	Returns:
-		Tuple[List, Dict]: A tuple containing a list of descendants and a dictionary of descendants with their distances.
-	"""
-	if max_depth is not None:
-		if max_depth <= 0:
-			return [], {}
-		else:
-			max_depth -= 1
-	_objects_travelled = _objects_travelled or []
-	_objects_travelled.append(obj)
-	children = obj.__children__()
-	if len(children) == 0:
-		return [], {}
-	else:
-		descendants = []
-		descendants_dict = {1: []}
-		for child in children:
-			if child not in _objects_travelled:
-				if child not in descendants:
-					descendants.append(child)
-					descendants_dict[1].append(child)
-				child_descendants, child_descendants_dict = _get_descendants(
-					obj=child, _objects_travelled=_objects_travelled, max_depth=max_depth
-				)
-				for descendant in child_descendants:
-					if descendant not in descendants:
-						descendants.append(descendant)
-						for distance in child_descendants_dict.keys():
-							descendants_dict[distance + 1] = child_descendants_dict[distance]
-		return descendants, descendants_dict
+from .get_ancestors import group_by_distance
+from typing import List, Dict, Optional, Union
 
 
 def get_descendants(obj, distance: bool = True, max_depth: Optional[int] = None) -> Union[List, Dict]:
@@ -53,8 +14,8 @@ def get_descendants(obj, distance: bool = True, max_depth: Optional[int] = None)
 	Returns:
 		Union[List, Dict]: A list of descendants or a dictionary of descendants with their distances.
 	"""
-	descendants, descendants_dict = _get_descendants(obj=obj, _objects_travelled=None, max_depth=max_depth)
+	descendants_dict = group_by_distance(obj=obj, get_relatives=lambda x: x.__children__(), max_distance=max_depth)
 	if distance:
 		return descendants_dict
 	else:
-		return descendants
+		return [descendant for descendants in descendants_dict.values() for descendant in descendants]
-- 
2.43.0


From d810c5ab8944af37f7ea442476885e74d50f15f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:43 +0000
Subject: [PATCH 14/42] fix: from_object adds all nodes before connecting them,
 so shared children and cycles no longer fail

---
 abstract/_BasicGraph.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 874f28b..3ccab0b 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -130,23 +130,23 @@ class BasicGraph:
 			BasicGraph: The created graph.
 		"""
 		graph = cls(strict=strict)
-		graph.add_node(name=obj.__hash__(), label=str(obj))
 		descendants = get_descendants(obj=obj, distance=False, max_depth=max_depth)
 		ancestors = get_ancestors(obj=obj, distance=False, max_height=max_height)
 
 		obj_and_descendants = [obj] + descendants
-		for child in descendants:
+		obj_and_ancestors = [obj] + ancestors
+		for x in obj_and_descendants + ancestors:
+			graph.add_node(name=x.__hash__(), label=str(x), if_node_exists='ignore')
+
+		for child in obj_and_descendants:
 			for parent in child.__parents__():
 				if parent in obj_and_descendants:
-					graph.add_node(name=child.__hash__(), label=str(child))
-					graph.connect(start=parent.__hash__(), end=child.__hash__())
+					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')
 
-		obj_and_ancestors = [obj] + ancestors
-		for parent in ancestors:
+		for parent in obj_and_ancestors:
 			for child in parent.__children__():
 				if child in obj_and_ancestors:
-					graph.add_node(name=parent.__hash__(), label=str(parent))
-					graph.connect(start=parent.__hash__(), end=child.__hash__())
+					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')
 
 		return graph
 
-- 
2.43.0


From 922bddc4c1e42951e8dc1e3c9b033547a3c49e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:44 +0000
Subject: [PATCH 15/42] fix: graphs with edges can be converted to dictionary
 form, with their labels and without sharing styles

---
 abstract/_GraphObj.py            | 4 ++++
 abstract/_GraphWithoutDisplay.py | 9 +++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index 26b6308..8d6f307 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -103,6 +103,10 @@ class GraphObj:
 	def label(self, label):
 		self._label = label
 
+	@property
+	def raw_label(self):
+		return self._label
+
 	def display_label(self):
 		if self._label_converter is not None:
 			return self._label_converter(self.label)
diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 503c18b..156297c 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -445,7 +445,8 @@ class GraphWithoutDisplay(BasicGraph):
 				self._ordering = dictionary['ordering']
 
 			if 'label' in dictionary:
-				self._label = '\n' + dictionary['label']
+				label = dictionary['label']
+				self._label = None if label is None else '\n' + label
 
 			if 'tooltip' in dictionary:
 				self._tooltip = dictionary['tooltip']
@@ -537,9 +538,9 @@ class GraphWithoutDisplay(BasicGraph):
 		edges_list = []
 		for node in self.nodes:
 			nodes_dict[node.id] = {
-				'label': node.display_label_or_value,
+				'label': node.raw_label,
 				'value': node.value,
-				'style': node.style
+				'style': None if node.style is None else node.style.copy()
 			}
 
 			for edge in node.outward_edges:
@@ -550,7 +551,7 @@ class GraphWithoutDisplay(BasicGraph):
 						'id': edge.raw_id,
 						'label': edge.raw_label,
 						'value': edge.value,
-						'style': edge.style
+						'style': None if edge.style is None else edge.style.copy()
 					}
 				])
 
-- 
2.43.0


From 2e41a4deccdb1ec37e5667db0c401d5e93690d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:44 +0000
Subject: [PATCH 16/42] fix: edge style overrides are kept as styles, survive
 conversion, and overrides of removed nodes and edges are skipped

---
 abstract/_GraphWithoutDisplay.py | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 156297c..1de27b6 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -258,12 +258,17 @@ class GraphWithoutDisplay(BasicGraph):
 			stylize_randomly(graph=self)
 
 		for name, style in self._node_style_overwrites.items():
-			self.nodes_dict[name].style.complement(style)
+			if name in self.nodes_dict:
+				self.nodes_dict[name].style.complement(style)
 
+		edges_dict = self.edges_dict
 		for edge_id, style in self._edge_style_overwrites.items():
-			self.edges_dict[edge_id].style = style
+			if edge_id in edges_dict:
+				edges_dict[edge_id].style = style
 
 		for name, colour in self._node_colour_overwrites.items():
+			if name not in self.nodes_dict:
+				continue
 			node = self.nodes_dict[name]
 			style = node.style.copy()
 			style.reset_colours()
@@ -271,7 +276,9 @@ class GraphWithoutDisplay(BasicGraph):
 			node.style = style
 
 		for edge_id, colour in self._edge_colour_overwrites.items():
-			edge = self.edges_dict[edge_id]
+			if edge_id not in edges_dict:
+				continue
+			edge = edges_dict[edge_id]
 			_ = edge.style.colour
 			style = edge.style.copy()
 			style.reset_colours()
@@ -480,12 +487,12 @@ class GraphWithoutDisplay(BasicGraph):
 				if len(parent_child_edge_dict) == 2:
 					parent, child = parent_child_edge_dict
 					edge = self.connect(start=parent, end=child)
-					edges_dict[(parent, child)] = edge.id
+					edges_dict[(parent, child)] = edges_dict[edge.id] = edge.id
 
 				elif len(parent_child_edge_dict) == 3:
 					parent, child, edge_dict = parent_child_edge_dict
 					edge = self.connect(start=parent, end=child, **edge_dict)
-					edges_dict[(parent, child)] = edge.id
+					edges_dict[(parent, child)] = edges_dict[edge.id] = edge.id
 
 				elif len(parent_child_edge_dict) < 2:
 					raise ValueError('Too few objects in an edge definition!')
@@ -499,7 +506,7 @@ class GraphWithoutDisplay(BasicGraph):
 			if 'edge_styles' in dictionary:
 				for parent_child_edge_id, edge_style in dictionary['edge_styles'].items():
 					edge_id = edges_dict[parent_child_edge_id]
-					self._edge_colour_overwrites[edge_id] = edge_style
+					self._edge_style_overwrites[edge_id] = edge_style
 
 			if 'node_colours' in dictionary:
 				for name, colour in dictionary['node_colours'].items():
@@ -536,6 +543,7 @@ class GraphWithoutDisplay(BasicGraph):
 		"""
 		nodes_dict = {}
 		edges_list = []
+		edges_dict = self.edges_dict
 		for node in self.nodes:
 			nodes_dict[node.id] = {
 				'label': node.raw_label,
@@ -561,11 +569,12 @@ class GraphWithoutDisplay(BasicGraph):
 			'colour_scheme': self._colour_scheme,
 			'label': self._label,
 			'label_url': self._label_url,
-			'node_styles': self._node_style_overwrites,
-			'edge_styles': self._edge_style_overwrites,
+			'node_styles': {name: x for name, x in self._node_style_overwrites.items() if name in nodes_dict},
+			'edge_styles': {id: x for id, x in self._edge_style_overwrites.items() if id in edges_dict},
 			'global_node_style': self._global_node_style_overwrite,
 			'global_edge_style': self._global_edge_style_overwrite,
-			'node_colours': self._node_colour_overwrites,
+			'node_colours': {name: x for name, x in self._node_colour_overwrites.items() if name in nodes_dict},
+			'edge_colours': {id: x for id, x in self._edge_colour_overwrites.items() if id in edges_dict},
 			'nodes': nodes_dict,
 			'edges': edges_list
 		}
-- 
2.43.0


From dcdb46a0dbfb4505a50e8871620c3194a4236612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:45 +0000
Subject: [PATCH 17/42] fix: adding graphs combines the values of both, keeps
 zero values, colour overrides and the order of nodes

---
 abstract/_GraphWithoutDisplay.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 1de27b6..be97507 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -654,13 +654,15 @@ class GraphWithoutDisplay(BasicGraph):
 
 		if add_values_function is None:
 			def add_values_function(x, y):
-				if x is None or y is None:
-					return x or y
+				if x is None:
+					return y
+				elif y is None:
+					return x
 				else:
 					return x + y
 
 		nodes = {}
-		for the_id in set(d1['nodes'].keys()).union(d2['nodes'].keys()):
+		for the_id in {**d1['nodes'], **d2['nodes']}:
 			if the_id in d1['nodes'] and the_id in d2['nodes']:
 				node1 = d1['nodes'][the_id]
 				node2 = d2['nodes'][the_id]
@@ -668,7 +670,7 @@ class GraphWithoutDisplay(BasicGraph):
 				for key in set(node1.keys()).union(node2.keys()):
 					if key in node1 and key in node2:
 						if key == 'value':
-							n[key] = add_values_function(node2[key], node2[key])
+							n[key] = add_values_function(node1[key], node2[key])
 						else:
 							n[key] = node1[key] or node2[key]
 					elif key in node1:
@@ -705,6 +707,8 @@ class GraphWithoutDisplay(BasicGraph):
 			'ordering': d1['ordering'],
 			'node_styles': node_styles,
 			'edge_styles': edge_styles,
+			'node_colours': {**d1['node_colours'], **d2['node_colours']},
+			'edge_colours': {**d1['edge_colours'], **d2['edge_colours']},
 			'nodes': nodes,
 			'edges': edges
 		}
-- 
2.43.0


From 42a8d8f4bf479c4fa0b323ae7fc31d780d1b3ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 18/42] fix: nodes in a loop that is entered from outside get a
 style, so that such graphs can be rendered

---
 abstract/styling/stylize_with_pensieve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/styling/stylize_with_pensieve.py b/abstract/styling/stylize_with_pensieve.py
index 9764f88..78fbd87 100755
--- a/abstract/styling/stylize_with_pensieve.py
+++ b/abstract/styling/stylize_with_pensieve.py
@@ -19,7 +19,7 @@ def stylize_with_pensieve(
 	# roots or semi-roots
 	for node in graph.nodes:
 		if node.style is None:
-			if is_root_or_parents_are_in_loop(node):
+			if is_root_or_parents_are_in_loop(node) or node.is_in_loop():
 				colour = get_least_used_colour(colours_used)
 				if node_style is None:
 					style = NodeStyle(colour=colour)
-- 
2.43.0


From ca6dd92d91536236e42245696b02970ace16b1d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 19/42] fix: the arrow size of an edge depends on its own value
 only, and values that are not numbers do not break rendering

---
 abstract/styling/stylize_edges_based_on_nodes.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/abstract/styling/stylize_edges_based_on_nodes.py b/abstract/styling/stylize_edges_based_on_nodes.py
index 299c341..569a8c5 100755
--- a/abstract/styling/stylize_edges_based_on_nodes.py
+++ b/abstract/styling/stylize_edges_based_on_nodes.py
@@ -7,13 +7,13 @@ def stylize_edges_based_on_nodes(graph, edge_style=None, edge_darkness_ratio=0.1
 			colour = edge.start.style.colour.darken(ratio=edge_darkness_ratio)
 
 			if edge_style is None:
-				edge_style = EdgeStyle(colour=colour)
+				style = EdgeStyle(colour=colour)
 			else:
-				edge_style = edge_style.copy()
-				edge_style.reset_colours()
-				edge_style.colour = colour
+				style = edge_style.copy()
+				style.reset_colours()
+				style.colour = colour
 
-			if edge.value is not None:
-				edge_style._arrow_size *= edge.value
+			if isinstance(edge.value, (int, float)):
+				style._arrow_size *= edge.value
 
-			edge.style = edge_style
\ No newline at end of file
+			edge.style = style
-- 
2.43.0


From fe87c47f2e23499f46d20d55ede895e1df91afaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 20/42] fix: the random stylist keeps existing styles, so that
 a graph can be rendered more than once

---
 abstract/styling/stylize_randomly.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/abstract/styling/stylize_randomly.py b/abstract/styling/stylize_randomly.py
index ce200d7..a941c8f 100755
--- a/abstract/styling/stylize_randomly.py
+++ b/abstract/styling/stylize_randomly.py
@@ -23,14 +23,15 @@ def stylize_randomly(
 
 	# all nodes
 	for node in nodes:
-		colour = get_least_used_colour(colours_used)
-		if node_style is None:
-			style = NodeStyle(colour=colour)
-		else:
-			style = node_style.copy()
-			style.reset_colours()
-			style.colour = colour
-		node.style = style
+		if node.style is None:
+			colour = get_least_used_colour(colours_used)
+			if node_style is None:
+				style = NodeStyle(colour=colour)
+			else:
+				style = node_style.copy()
+				style.reset_colours()
+				style.colour = colour
+			node.style = style
 
 	# branch edges
 	stylize_edges_based_on_nodes(graph=graph, edge_style=edge_style, edge_darkness_ratio=edge_darkness_ratio)
-- 
2.43.0


From 79d88bb2c71ad58b5244c451ba505617cb743aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 21/42] fix: a graph with a graph-wide node or edge style can
 be rendered more than once and with styled nodes

---
 abstract/_GraphWithoutDisplay.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index be97507..cb68071 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -246,11 +246,13 @@ class GraphWithoutDisplay(BasicGraph):
 				smart_global_node_style_overwrite = self._global_node_style_overwrite
 
 			for node in self.nodes:
-				node.style = smart_global_node_style_overwrite
+				if node.style is None or self._style_overwrite_allowed:
+					node.style = smart_global_node_style_overwrite
 
 		if self._global_edge_style_overwrite is not None:
 			for edge in self.edges:
-				edge.style = self._global_edge_style_overwrite
+				if edge.style is None or self._style_overwrite_allowed:
+					edge.style = self._global_edge_style_overwrite
 
 		if self._stylist == 'pensieve':
 			stylize_with_pensieve(graph=self)
-- 
2.43.0


From acc420ffe618988538b76491eac198727599706e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:10 +0000
Subject: [PATCH 22/42] fix: an empty graph with an automatic node shape can be
 rendered

---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index cb68071..4bab4a8 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -239,7 +239,7 @@ class GraphWithoutDisplay(BasicGraph):
 			smart_global_node_style_overwrite = None
 			if 'shape' in self._global_node_style_overwrite:
 				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
-					if max([len(str(node.name)) for node in self.nodes]) < 3:
+					if max([len(str(node.name)) for node in self.nodes], default=0) < 3:
 						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
 						smart_global_node_style_overwrite['shape'] = 'circle'
 			if smart_global_node_style_overwrite is None:
@@ -292,7 +292,7 @@ class GraphWithoutDisplay(BasicGraph):
 			smart_global_node_style_overwrite = None
 			if 'shape' in self._global_node_style_overwrite:
 				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
-					if max([len(str(node.name)) for node in self.nodes]) < 3:
+					if max([len(str(node.name)) for node in self.nodes], default=0) < 3:
 						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
 						smart_global_node_style_overwrite['shape'] = 'circle'
 			if smart_global_node_style_overwrite is None:
-- 
2.43.0


From 700901e446198a955582f4e336c9f98a355e0fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 23/42] fix: graph-wide styles can be NodeStyle and EdgeStyle
 objects as documented, not only dictionaries

---
 abstract/_GraphWithoutDisplay.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 4bab4a8..a4dd480 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -237,7 +237,7 @@ class GraphWithoutDisplay(BasicGraph):
 		"""Applies styles to the nodes and edges in the graph."""
 		if self._global_node_style_overwrite is not None:
 			smart_global_node_style_overwrite = None
-			if 'shape' in self._global_node_style_overwrite:
+			if isinstance(self._global_node_style_overwrite, dict) and 'shape' in self._global_node_style_overwrite:
 				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
 					if max([len(str(node.name)) for node in self.nodes], default=0) < 3:
 						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
@@ -247,12 +247,13 @@ class GraphWithoutDisplay(BasicGraph):
 
 			for node in self.nodes:
 				if node.style is None or self._style_overwrite_allowed:
-					node.style = smart_global_node_style_overwrite
+					# copied, so that nodes do not share a style object
+					node.style = smart_global_node_style_overwrite.copy()
 
 		if self._global_edge_style_overwrite is not None:
 			for edge in self.edges:
 				if edge.style is None or self._style_overwrite_allowed:
-					edge.style = self._global_edge_style_overwrite
+					edge.style = self._global_edge_style_overwrite.copy()
 
 		if self._stylist == 'pensieve':
 			stylize_with_pensieve(graph=self)
@@ -290,7 +291,7 @@ class GraphWithoutDisplay(BasicGraph):
 
 		if self._global_node_style_overwrite is not None:
 			smart_global_node_style_overwrite = None
-			if 'shape' in self._global_node_style_overwrite:
+			if isinstance(self._global_node_style_overwrite, dict) and 'shape' in self._global_node_style_overwrite:
 				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
 					if max([len(str(node.name)) for node in self.nodes], default=0) < 3:
 						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
@@ -298,10 +299,11 @@ class GraphWithoutDisplay(BasicGraph):
 			if smart_global_node_style_overwrite is None:
 				smart_global_node_style_overwrite = self._global_node_style_overwrite
 
-			for node in self.nodes:
-				node.style.complement(smart_global_node_style_overwrite)
+			if isinstance(smart_global_node_style_overwrite, dict):
+				for node in self.nodes:
+					node.style.complement(smart_global_node_style_overwrite)
 
-		if self._global_edge_style_overwrite is not None:
+		if isinstance(self._global_edge_style_overwrite, dict):
 			for edge in self.edges:
 				edge.style.complement(self._global_edge_style_overwrite)
 
-- 
2.43.0


From cb430f44d7630238a5208ba0c85e6b1f109c51ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:49 +0000
Subject: [PATCH 24/42] fix: quotes in names, labels, values and tooltips are
 escaped in the DOT text, once and only there

---
 abstract/Edge.py                 |  8 ++++----
 abstract/Node.py                 | 10 +++++-----
 abstract/_GraphObj.py            |  5 +++++
 abstract/_GraphWithoutDisplay.py |  9 +++++----
 4 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/abstract/Edge.py b/abstract/Edge.py
index 8761318..b5de531 100755
--- a/abstract/Edge.py
+++ b/abstract/Edge.py
@@ -1,4 +1,4 @@
-from ._GraphObj import GraphObj
+from ._GraphObj import GraphObj, escape_quotes
 from .styling.EdgeStyle import EdgeStyle
 from .Node import Node
 from typing import Optional, Union, Dict, Tuple
@@ -144,9 +144,9 @@ class Edge(GraphObj):
 		label_or_value = self.display_label_or_value()
 		style = self.style
 		if label_or_value is not None:
-			parts.append(f'label="{label_or_value}"')
+			parts.append(f'label="{escape_quotes(label_or_value)}"')
 		if self._tooltip is not None:
-			parts.append(f'tooltip="{self._tooltip}"')
+			parts.append(f'tooltip="{escape_quotes(self._tooltip)}"')
 		if style is not None:
 			parts.append(style.get_graphviz_str())
 
@@ -155,7 +155,7 @@ class Edge(GraphObj):
 		else:
 			second_part = ''
 
-		return f'"{self.start.name}" -> "{self.end.name}"' + second_part
+		return f'"{escape_quotes(self.start.name)}" -> "{escape_quotes(self.end.name)}"' + second_part
 
 	@property
 	def start(self) -> Node:
diff --git a/abstract/Node.py b/abstract/Node.py
index ba8555e..272b1ea 100755
--- a/abstract/Node.py
+++ b/abstract/Node.py
@@ -1,4 +1,4 @@
-from ._GraphObj import GraphObj
+from ._GraphObj import GraphObj, escape_quotes
 from .styling.NodeStyle import NodeStyle
 from typing import Optional, Union, List, Dict
 
@@ -228,7 +228,7 @@ class Node(GraphObj):
 			result = str(self._label)
 		else:
 			result = str(self.id)
-		return result.replace('"', '\\"')
+		return result
 
 	@label.setter
 	def label(self, label: str):
@@ -322,16 +322,16 @@ class Node(GraphObj):
 			str: The Graphviz representation.
 		"""
 
-		parts = [f'label="{self.display_label()}"']
+		parts = [f'label="{escape_quotes(self.display_label())}"']
 
 		if self._tooltip is not None:
-			parts.append(f'tooltip="{self._tooltip}"')
+			parts.append(f'tooltip="{escape_quotes(self._tooltip)}"')
 
 		style = self.style
 		if style is not None:
 			parts.append(style.get_graphviz_str())
 
-		return f'"{self.id}" [' + ' '.join(parts) + ']'
+		return f'"{escape_quotes(self.id)}" [' + ' '.join(parts) + ']'
 
 	def connect_to(self, node: 'Node', **kwargs) -> 'GraphObj':
 		"""
diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index 8d6f307..de4df5a 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -8,6 +8,11 @@ def make_hash_sha256(obj):
 	return base32hex.b32encode(hasher.digest()).replace('=', '-')
 
 
+def escape_quotes(obj):
+	"""Makes the text of an object safe inside a quoted string of the DOT language."""
+	return str(obj).replace('"', '\\"')
+
+
 class GraphObj:
 	def __init__(self, graph, id, value=None, label=None, tooltip=None, style=None, **kwargs):
 		self._graph = graph
diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index a4dd480..242246d 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -11,6 +11,7 @@ from .styling import stylize_with_pensieve, stylize_randomly
 from typing import Optional, Union, Dict, Callable
 from .Node import Node
 from .Edge import Edge
+from ._GraphObj import escape_quotes
 
 DEFAULT_BACKGROUND_COLOUR_NAME = '#FAFAFA'
 DEFAULT_PAD = 0.1
@@ -346,7 +347,7 @@ class GraphWithoutDisplay(BasicGraph):
 					else:
 						attributes['label'] = f'<\n{html}>'
 				else:
-					attributes['label'] = f'"{self._label}"'
+					attributes['label'] = f'"{escape_quotes(self._label)}"'
 
 			if self._label_location is not None:
 				attributes['labelloc'] = f'"{self._label_location[0]}"'
@@ -357,11 +358,11 @@ class GraphWithoutDisplay(BasicGraph):
 			if self._label_colour is not None:
 				attributes['fontcolor'] = f'"{self._label_colour}"'
 			if self._label_url is not None:
-				attributes['href'] = f'"{self._label_url}"'
+				attributes['href'] = f'"{escape_quotes(self._label_url)}"'
 				attributes['target'] = '"_blank"'
 
 		if self._tooltip is not None:
-			attributes['tooltip'] = f'"{self._tooltip}"'
+			attributes['tooltip'] = f'"{escape_quotes(self._tooltip)}"'
 
 		#if dpi is not None:
 		#	attributes['dpi'] = f'{dpi}'
@@ -369,7 +370,7 @@ class GraphWithoutDisplay(BasicGraph):
 			if isinstance(value, int):
 				attributes[key] = value
 			else:
-				attributes[key] = f'"{value}"'
+				attributes[key] = f'"{escape_quotes(value)}"'
 
 		if len(attributes) > 0:
 			second_part += '\t graph [' + ', '.join([f'{key} = {value}' for key, value in attributes.items()]) + ' ];\n'
-- 
2.43.0


From cdf1471e7af48dc511b41057ececae2739a010f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:49 +0000
Subject: [PATCH 25/42] fix: rendering to a path saves in the format named by
 the path

---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 242246d..cc3f391 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -758,7 +758,7 @@ class GraphWithoutDisplay(BasicGraph):
 			to_save = self.get_graphviz_source(
 				direction=direction, pad=pad, dpi=dpi, height=height, width=width, output_format=output_format
 			)
-			to_save.render(filename=filename, view=view)
+			to_save.render(filename=filename, view=view, format=output_format or None)
 			return self.get_graphviz_source(direction=direction, pad=pad, dpi=None)
 
 	"""
-- 
2.43.0


From 70c971c470db9d5ae4131299a18e04fd24d7c5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 26/42] fix: outlines may start with an empty line, keep their
 text unaltered, and are split by their own unit only

---
 abstract/parse_indentations_function.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/abstract/parse_indentations_function.py b/abstract/parse_indentations_function.py
index 7c3e8c5..68414be 100755
--- a/abstract/parse_indentations_function.py
+++ b/abstract/parse_indentations_function.py
@@ -13,27 +13,27 @@ def parse_indentations(lines: List[str], indent: Optional[str] = None) -> Genera
 	Yields:
 		Tuple[int, int, str, Optional[int]]: A tuple containing the index, level, content, and parent index.
 	"""
-	regex = re.compile(r'^(?P<indent>(?: {4})*)(?P<name>\S.*)')
 	stack = []
+	level = 0
 
 	for index, line in enumerate(lines):
 		line = line.rstrip('\n')
 		if indent is None:
 			if line.startswith('\t') or line.startswith(' '):
 				indent = re.findall(pattern=r'^[ \t]+', string=line)[0]
-		if indent is not None:
-			line = line.replace(indent, " " * 4, len(line) - len(line.lstrip(indent)))
 		if len(line) > 0:
-			match = regex.match(line)
-			if not match:
+			content = line
+			level = 0
+			while indent and content.startswith(indent):
+				content = content[len(indent):]
+				level += 1
+			if not re.match(r'\S', content):
 				raise ValueError(
-					'Indentation not a multiple of spaces or tabs'.format(line)
+					'Indentation not a multiple of spaces or tabs: "{0}"'.format(line)
 				)
-			level = len(match.group('indent')) // 4
 			if level > len(stack):
 				raise ValueError('Indentation too deep: "{0}"'.format(line))
 			stack[level:] = [index]
-			content = match.group('name')
 		else:
 			content = ''
 		yield index, level, content, (stack[level - 1] if level else None)
-- 
2.43.0


From d3e78c00a66dfcd012830a43653b241ba45998b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:51 +0000
Subject: [PATCH 27/42] fix: constructing a node or edge that already exists
 raises instead of leaving orphaned edges behind

---
 abstract/Edge.py | 2 ++
 abstract/Node.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/abstract/Edge.py b/abstract/Edge.py
index b5de531..44003cf 100755
--- a/abstract/Edge.py
+++ b/abstract/Edge.py
@@ -32,6 +32,8 @@ class Edge(GraphObj):
 		self._start = start
 		self._end = end
 		self.raw_id = id
+		if self.id in start.outward_edges_dict or self.id in end.inward_edges_dict:
+			raise ValueError(f'Error! Edge {self.id} already exists!')
 		start.append_outward_edge(edge=self)
 		end.append_inward_edge(edge=self)
 
diff --git a/abstract/Node.py b/abstract/Node.py
index 272b1ea..239ffe0 100755
--- a/abstract/Node.py
+++ b/abstract/Node.py
@@ -39,6 +39,8 @@ class Node(GraphObj):
 		self._outward_edges_have_start_node = True
 		self._inward_edges_have_end_node = True
 		self._index = index
+		if name in graph._nodes_dict:
+			raise KeyError(f'duplicate node id:"{name}"!')
 		graph._nodes_dict[name] = self
 
 	# make node hashable
-- 
2.43.0


From 4b9e99ad11a2ccad0302ae9a8cbaaccab05f8378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:48 +0000
Subject: [PATCH 28/42] fix: the pensieve stylist finds each inherited style
 once, so that layered graphs and long chains can be rendered

---
 abstract/styling/inherit_style.py         | 52 +++++++++++++++++++----
 abstract/styling/stylize_with_pensieve.py |  4 +-
 2 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/abstract/styling/inherit_style.py b/abstract/styling/inherit_style.py
index 0e12ff5..f0438e1 100755
--- a/abstract/styling/inherit_style.py
+++ b/abstract/styling/inherit_style.py
@@ -15,9 +15,50 @@ def get_diverging_number(i, n, reverse):
 	return sorted(generate_diverging_numbers(n), reverse=reverse)[i]
 
 
-def inherit_style(node, pale_ratio, divergence_ratio, main_style):
+def get_inheritance_sources(node, divergence_ratio, main_style):
 	"""
+	the nodes (and their divergence ratios) from which the style of a node is inherited
 	:type node: Node
+	:rtype: list[tuple[Node, float]]
+	"""
+	if is_root_or_parents_are_in_loop(node):
+		return []
+	elif len(node.parents) == 1:
+		return [(node.parents[0], divergence_ratio)] if main_style is None else []
+	else:
+		return [(parent, 0) for parent in node.parents if not node.is_in_loop_with(parent)]
+
+
+def inherit_style(node, pale_ratio, divergence_ratio, main_style, cache=None):
+	"""
+	:type node: Node
+	:param dict cache: the styles inherited so far, so that each is found once however many paths lead to it
+	:rtype: NodeStyle
+	"""
+	if cache is None:
+		cache = {}
+	# a stack instead of recursion: a chain of nodes can be longer than the recursion limit
+	stack = [(node, divergence_ratio)]
+	while len(stack) > 0:
+		x, x_ratio = stack[-1]
+		sources = get_inheritance_sources(node=x, divergence_ratio=x_ratio, main_style=main_style)
+		missing = [(source, ratio) for source, ratio in sources if (source.id, ratio) not in cache]
+		if len(missing) > 0:
+			stack.extend(missing)
+		else:
+			stack.pop()
+			if (x.id, x_ratio) not in cache:
+				cache[(x.id, x_ratio)] = inherit_style_from_sources(
+					node=x, pale_ratio=pale_ratio, divergence_ratio=x_ratio, main_style=main_style,
+					styles=[cache[(source.id, ratio)] for source, ratio in sources]
+				)
+	return cache[(node.id, divergence_ratio)].copy()
+
+
+def inherit_style_from_sources(node, pale_ratio, divergence_ratio, main_style, styles):
+	"""
+	:type node: Node
+	:param list[NodeStyle] styles: the styles of the nodes from which the style is inherited
 	:rtype: NodeStyle
 	"""
 	if is_root_or_parents_are_in_loop(node):
@@ -31,9 +72,7 @@ def inherit_style(node, pale_ratio, divergence_ratio, main_style):
 			num_siblings = len(parent.children)
 			rank = node.get_child_rank(parent=parent)
 			if main_style is None:
-				style = inherit_style(
-					node=parent, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=main_style
-				)
+				style = styles[0]
 			else:
 				style = main_style
 			if num_siblings == 0:
@@ -49,11 +88,6 @@ def inherit_style(node, pale_ratio, divergence_ratio, main_style):
 			new_style.colour = colour
 			return new_style
 		else:
-			styles = [
-				inherit_style(node=parent, pale_ratio=pale_ratio, divergence_ratio=0, main_style=main_style)
-				for parent in node.parents
-				if not node.is_in_loop_with(parent)
-			]
 			colours = [style.colour for style in styles]
 			if main_style is None:
 				style = styles[0]
diff --git a/abstract/styling/stylize_with_pensieve.py b/abstract/styling/stylize_with_pensieve.py
index 78fbd87..e0c7dd5 100755
--- a/abstract/styling/stylize_with_pensieve.py
+++ b/abstract/styling/stylize_with_pensieve.py
@@ -30,11 +30,13 @@ def stylize_with_pensieve(
 				node.style = style
 
 	# branch nodes
+	inherited_styles = {}
 	for node in graph.nodes:
 		if not is_root_or_parents_are_in_loop(node) and not node.is_in_loop():
 			if node.style is None:
 				node.style = inherit_style(
-					node=node, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=node_style
+					node=node, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=node_style,
+					cache=inherited_styles
 				)
 
 	# branch edges
-- 
2.43.0


From 08abc6f81fbb464d06fb0b91d5dc892a2177aeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 29/42] fix: the tree text of a long chain of nodes no longer
 overflows the stack

---
 abstract/Node.py | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/abstract/Node.py b/abstract/Node.py
index 239ffe0..504c0eb 100755
--- a/abstract/Node.py
+++ b/abstract/Node.py
@@ -292,27 +292,26 @@ class Node(GraphObj):
 		if already_added is None:
 			already_added = []
 
-		tree_string = self.label
-
-		if self in already_added:
-			tree_string += '*\n'
-
-		else:
-			tree_string += '\n'
-			num_children = len(self.children)
-
-			for child_num, child in enumerate(self.children):
-
-				already_added.append(self)
-				if child_num+1 == num_children:
-					tree_string += indentation + CORNER + ' ' + child.get_tree_str(
-						indentation=indentation + '  ', already_added=already_added
-					)
-
-				else:
-					tree_string += indentation + TWO_WAY + ' ' + child.get_tree_str(
-						indentation=indentation + VERTICAL + ' ', already_added=already_added
-					)
+		tree_string = ''
+		# a stack instead of recursion: a chain of nodes can be longer than the recursion limit
+		stack = [('', indentation, self)]
+		while len(stack) > 0:
+			branch, indentation, node = stack.pop()
+
+			if node in already_added:
+				tree_string += branch + node.label + '*\n'
+
+			else:
+				tree_string += branch + node.label + '\n'
+				children = node.children
+				if len(children) > 0:
+					already_added.append(node)
+
+				for child_num, child in reversed(list(enumerate(children))):
+					if child_num+1 == len(children):
+						stack.append((indentation + CORNER + ' ', indentation + '  ', child))
+					else:
+						stack.append((indentation + TWO_WAY + ' ', indentation + VERTICAL + ' ', child))
 
 		return tree_string
 
-- 
2.43.0


From 73b8ee35496e5843e3454da6ba850918aa643cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 30/42] fix: special characters in a graph label with a
 background colour no longer break the DOT text

---
 abstract/_GraphWithoutDisplay.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index cc3f391..8d08837 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -5,6 +5,7 @@ from graphviz import Source
 import os
 from copy import deepcopy
 from functools import wraps
+from html import escape as escape_html
 import random
 from colouration import Colour
 from .styling import stylize_with_pensieve, stylize_randomly
@@ -341,7 +342,8 @@ class GraphWithoutDisplay(BasicGraph):
 				attributes['label'] = f'{self._label}'
 			else:
 				if self._label_background_colour is not None:
-					html = f'<table border="0" cellborder="0"><tr><td bgcolor="{self._label_background_colour}" title="{self._label}">{self._label} </td></tr></table>'
+					label = escape_html(self._label)
+					html = f'<table border="0" cellborder="0"><tr><td bgcolor="{self._label_background_colour}" title="{label}">{label} </td></tr></table>'
 					if self._label_location[0] == 't':
 						attributes['label'] = f'<{html}\n>'
 					else:
-- 
2.43.0


From 9b21f5e8cc3cba836634737a2fc23d50937d5cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:16 +0000
Subject: [PATCH 31/42] fix: rendering never changes the edge styles given in a
 graph description

---
 abstract/_GraphWithoutDisplay.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 8d08837..9b1f55f 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -269,7 +269,8 @@ class GraphWithoutDisplay(BasicGraph):
 		edges_dict = self.edges_dict
 		for edge_id, style in self._edge_style_overwrites.items():
 			if edge_id in edges_dict:
-				edges_dict[edge_id].style = style
+				# copied, so that later changes of the edge's style do not reach the overwrite
+				edges_dict[edge_id].style = style.copy()
 
 		for name, colour in self._node_colour_overwrites.items():
 			if name not in self.nodes_dict:
-- 
2.43.0


From 883215f42d29cbf223f0c3ba81ff9fe5d2756c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:34 +0000
Subject: [PATCH 32/42] fix: inverting a style between resetting its colours
 and setting the main one no longer raises

---
 abstract/styling/EdgeStyle.py | 1 +
 abstract/styling/NodeStyle.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/abstract/styling/EdgeStyle.py b/abstract/styling/EdgeStyle.py
index b052f4f..e417a8f 100755
--- a/abstract/styling/EdgeStyle.py
+++ b/abstract/styling/EdgeStyle.py
@@ -49,6 +49,7 @@ class EdgeStyle:
 
 	def reset_colours(self):
 		self._text_colour = None
+		self._text_colour_based_on_main_colour = True
 
 	def copy(self):
 		"""
diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index 6d1a91f..650885c 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -56,6 +56,9 @@ class NodeStyle:
 		self._fill_colour = None
 		self._border_colour = None
 		self._text_colour = None
+		self._fill_colour_based_on_main_colour = True
+		self._border_colour_based_on_main_colour = True
+		self._text_colour_based_on_main_colour = True
 
 	def invert_colours(self):
 		"""
-- 
2.43.0


From d89f95955cbaf4d492996ca2779f5ec88d3c1797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:43 +0000
Subject: [PATCH 33/42] fix: rendering to a path whose extension is in upper
 case writes that file instead of failing

---
 abstract/_GraphWithoutDisplay.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 9b1f55f..23e06b8 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -757,11 +757,13 @@ class GraphWithoutDisplay(BasicGraph):
 			return self.get_graphviz_source(direction=direction, pad=pad, dpi=None)# Source(source=self.get_graphviz_str(direction=direction, pad=pad, dpi=None))
 		else:
 			filename, file_extension = os.path.splitext(path)
-			output_format = file_extension.lstrip('.')
+			output_format = file_extension.lstrip('.').lower()
 			to_save = self.get_graphviz_source(
 				direction=direction, pad=pad, dpi=dpi, height=height, width=width, output_format=output_format
 			)
-			to_save.render(filename=filename, view=view, format=output_format or None)
+			to_save.render(
+				filename=filename, outfile=path if output_format else None, view=view, format=output_format or None
+			)
 			return self.get_graphviz_source(direction=direction, pad=pad, dpi=None)
 
 	"""
-- 
2.43.0


From e20edc3e82fb2f697f531ce48a8ec9e3e7b5da4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:13 +0000
Subject: [PATCH 34/42] fix: overrides do not change style objects that other
 nodes or edges share

---
 abstract/_GraphWithoutDisplay.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 23e06b8..6d2eedb 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -262,9 +262,12 @@ class GraphWithoutDisplay(BasicGraph):
 		elif self._stylist == 'random':
 			stylize_randomly(graph=self)
 
+		# styles are copied before they are complemented: the object may have been given to other nodes or edges as well
 		for name, style in self._node_style_overwrites.items():
 			if name in self.nodes_dict:
-				self.nodes_dict[name].style.complement(style)
+				node = self.nodes_dict[name]
+				node._style = node.style.copy()
+				node.style.complement(style)
 
 		edges_dict = self.edges_dict
 		for edge_id, style in self._edge_style_overwrites.items():
@@ -304,10 +307,12 @@ class GraphWithoutDisplay(BasicGraph):
 
 			if isinstance(smart_global_node_style_overwrite, dict):
 				for node in self.nodes:
+					node._style = node.style.copy()
 					node.style.complement(smart_global_node_style_overwrite)
 
 		if isinstance(self._global_edge_style_overwrite, dict):
 			for edge in self.edges:
+				edge._style = edge.style.copy()
 				edge.style.complement(self._global_edge_style_overwrite)
 
 	def get_graphviz_header(
-- 
2.43.0


From df643b56d9936da6bc552485434d45ec13c081e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:18 +0000
Subject: [PATCH 35/42] fix: a node or edge with a NaN value was not similar to
 itself or to its copy

---
 abstract/_GraphObj.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index de4df5a..92f25a6 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -8,6 +8,11 @@ def make_hash_sha256(obj):
 	return base32hex.b32encode(hasher.digest()).replace('=', '-')
 
 
+def is_same_value(x, y):
+	"""Equality, except that a value which does not equal itself (NaN) is the same as another such value."""
+	return x is y or x == y or (x != x and y != y)
+
+
 def escape_quotes(obj):
 	"""Makes the text of an object safe inside a quoted string of the DOT language."""
 	return str(obj).replace('"', '\\"')
@@ -155,12 +160,14 @@ class GraphObj:
 		:rtype: bool
 		"""
 		condition_1 = self.id == other.id
-		condition_2 = self._value == other._value
+		condition_2 = is_same_value(self._value, other._value)
 		if self._style is None or other._style is None:
 			condition_3 = self._style is other._style
 		else:
 			condition_3 = self._style.get_graphviz_str() == other._style.get_graphviz_str()
-		condition_4 = self._parameters == other._parameters
+		condition_4 = self._parameters.keys() == other._parameters.keys() and all(
+			is_same_value(value, other._parameters[key]) for key, value in self._parameters.items()
+		)
 		return  condition_1 and condition_2 and condition_3 and condition_4
 
 	def has_style(self):
-- 
2.43.0


From eac471f81d6e9848a2b3e67c28944a26e18a72ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:18 +0000
Subject: [PATCH 36/42] fix: an edge value too large for a float made rendering
 raise OverflowError

---
 abstract/styling/stylize_edges_based_on_nodes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/abstract/styling/stylize_edges_based_on_nodes.py b/abstract/styling/stylize_edges_based_on_nodes.py
index 569a8c5..4addc2c 100755
--- a/abstract/styling/stylize_edges_based_on_nodes.py
+++ b/abstract/styling/stylize_edges_based_on_nodes.py
@@ -14,6 +14,10 @@ def stylize_edges_based_on_nodes(graph, edge_style=None, edge_darkness_ratio=0.1
 				style.colour = colour
 
 			if isinstance(edge.value, (int, float)):
-				style._arrow_size *= edge.value
+				try:
+					style._arrow_size *= edge.value
+				except OverflowError:
+					# an integer too large to be a float leaves the arrow as it is
+					pass
 
 			edge.style = style
-- 
2.43.0


From 81f567dc1e7a5c8f04b945b0d781ff7ec8957f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:15 +0000
Subject: [PATCH 37/42] fix: a graph label in angle brackets that is no HTML
 string is written as text

---
 abstract/_GraphWithoutDisplay.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 6d2eedb..67bd66b 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -3,6 +3,7 @@ from .styling.NodeStyle import NodeStyle
 from .styling.EdgeStyle import EdgeStyle
 from graphviz import Source
 import os
+import re
 from copy import deepcopy
 from functools import wraps
 from html import escape as escape_html
@@ -18,6 +19,27 @@ DEFAULT_BACKGROUND_COLOUR_NAME = '#FAFAFA'
 DEFAULT_PAD = 0.1
 
 
+def is_html_label(label: str) -> bool:
+	"""
+	Tells whether Graphviz reads a label as one HTML string: enclosed in angle brackets, with those inside balanced.
+
+	Args:
+		label (str): The label.
+
+	Returns:
+		bool: True if it is an HTML string, False if it is plain text.
+	"""
+	if not (label.startswith('<') and label.endswith('>')):
+		return False
+	content = re.sub('<!--.*?-->', '', label[1:-1], flags=re.DOTALL)
+	depth = 0
+	for character in content:
+		depth += {'<': 1, '>': -1}.get(character, 0)
+		if depth < 0:
+			return False
+	return depth == 0 and '<!--' not in content
+
+
 class GraphWithoutDisplay(BasicGraph):
 	def __init__(
 			self, obj=None, strict=False, ordering=True, node_style=None, edge_style=None,
@@ -344,7 +366,7 @@ class GraphWithoutDisplay(BasicGraph):
 
 		attributes = {}
 		if self._label is not None:
-			if self._label.startswith('<') and self._label.endswith('>'):
+			if is_html_label(self._label):
 				attributes['label'] = f'{self._label}'
 			else:
 				if self._label_background_colour is not None:
-- 
2.43.0


From 835619e1181fc31e74c28185f3fa5be917e8f410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:18 +0000
Subject: [PATCH 38/42] fix: a long text is written in pieces that Graphviz can
 read

---
 abstract/_GraphObj.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index 92f25a6..f66256f 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -1,4 +1,5 @@
 import hashlib
+import re
 import base32hex
 
 
@@ -15,7 +16,9 @@ def is_same_value(x, y):
 
 def escape_quotes(obj):
 	"""Makes the text of an object safe inside a quoted string of the DOT language."""
-	return str(obj).replace('"', '\\"')
+	text = str(obj).replace('"', '\\"')
+	# Graphviz reads at most 16384 bytes of a string in one piece; a backslash at the end of a line continues the string
+	return re.sub(r'((?:[^\\]|\\.){4000})', r'\1\\\n', text, flags=re.DOTALL)
 
 
 class GraphObj:
-- 
2.43.0


From 7462ea63304855c07ce4d6de9512f89e2f4c4b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:48 +0000
Subject: [PATCH 39/42] fix: a label with a background colour and no location
 stopped rendering

---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 67bd66b..e982c48 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -372,7 +372,7 @@ class GraphWithoutDisplay(BasicGraph):
 				if self._label_background_colour is not None:
 					label = escape_html(self._label)
 					html = f'<table border="0" cellborder="0"><tr><td bgcolor="{self._label_background_colour}" title="{label}">{label} </td></tr></table>'
-					if self._label_location[0] == 't':
+					if self._label_location is not None and self._label_location[0] == 't':
 						attributes['label'] = f'<{html}\n>'
 					else:
 						attributes['label'] = f'<\n{html}>'
-- 
2.43.0


From 5fbf53806349cda97be3135d857a6f13e823cd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:45 +0000
Subject: [PATCH 40/42] fix: comparing graphs with values that cannot be
 compared as a whole (arrays) no longer raises

---
 abstract/_GraphObj.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index f66256f..25884d0 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -1,4 +1,5 @@
 import hashlib
+import pickle
 import re
 import base32hex
 
@@ -11,7 +12,16 @@ def make_hash_sha256(obj):
 
 def is_same_value(x, y):
 	"""Equality, except that a value which does not equal itself (NaN) is the same as another such value."""
-	return x is y or x == y or (x != x and y != y)
+	if x is y:
+		return True
+	try:
+		return bool(x == y or (x != x and y != y))
+	except Exception:
+		# values that cannot be compared, or not as a whole (arrays), are the same when they are stored the same
+		try:
+			return pickle.dumps(x) == pickle.dumps(y)
+		except Exception:
+			return False
 
 
 def escape_quotes(obj):
-- 
2.43.0


From c6dd2edb42932aeb48a9dfcd39b8d49aa7202230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:26:45 +0000
Subject: [PATCH 41/42] fix: a style override of a node can be a NodeStyle
 object, as that of an edge can be an EdgeStyle

---
 abstract/_GraphWithoutDisplay.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index e982c48..f99de58 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -288,8 +288,12 @@ class GraphWithoutDisplay(BasicGraph):
 		for name, style in self._node_style_overwrites.items():
 			if name in self.nodes_dict:
 				node = self.nodes_dict[name]
-				node._style = node.style.copy()
-				node.style.complement(style)
+				if isinstance(style, NodeStyle):
+					# a style object is all of the style, as for edges
+					node._style = style.copy()
+				else:
+					node._style = node.style.copy()
+					node.style.complement(style)
 
 		edges_dict = self.edges_dict
 		for edge_id, style in self._edge_style_overwrites.items():
-- 
2.43.0


From 6ac205eddcf5ee5247e3f30c3706e9da4aa5fb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:32:14 +0000
Subject: [PATCH 42/42] fix: an edge hashed otherwise, or not at all, once it
 was removed from its graph

---
 abstract/_GraphObj.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index 25884d0..c618c76 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -96,7 +96,8 @@ class GraphObj:
 		self._raw_id = raw_id
 
 	def __hash__(self):
-		return make_hash_sha256((self._graph.__hash__(), self.id)).__hash__()
+		# remains the same when the object is removed from its graph
+		return object.__hash__(self)
 
 	@property
 	def is_frozen(self):
-- 
2.43.0

