------------------------------ MODULE FileModel ------------------------------
(***************************************************************************)
(* A folder into which a graph is rendered, again and again, under paths   *)
(* that get in one another's way: one path's source is another's image.    *)
(* Files of other people's stand among them, and the graph changes between *)
(* the renderings.  A file is [kind, v]: what it is, and which version of  *)
(* the graph it shows (0: none).                                           *)
(***************************************************************************)
EXTENDS FileOps, Json, TLC

CONSTANTS
  Paths,       \* where renderings go
  Foreign,     \* where other people put files
  Versions,    \* how often the graph changes
  Watch, Emit

VARIABLES files, version, last
vars == <<files, version, last>>
View == <<files, version>>

StemOf(p) == CASE p \in {"a.png", "a.svg", "a.SVG", "a.pdf"} -> "a" [] p = "a.svg.png" -> "a.svg" [] p = "b.svg" -> "b" [] p = "sub/a.svg" -> "sub/a"
ExtOf(p) == CASE p \in {"a.png", "a.svg.png"} -> "png" [] p \in {"a.svg", "b.svg", "sub/a.svg"} -> "svg" [] p = "a.SVG" -> "SVG" [] p = "a.pdf" -> "pdf"

Number == 1
Reached(e) == TLCSet(Number, TLCGet(Number) + 1) /\ last' = [id |-> TLCGet(Number), from |-> last.id, op |-> e]
Show(e) == (Emit /\ e.op \in Watch) => PrintT("@@" \o ToJson([at |-> last.id, e |-> e, out |-> "ok"]))
Announced == Emit => PrintT("##" \o ToJson([id |-> last.id, from |-> last.from, op |-> last.op]))

With(fs, p, x) == [f \in DOMAIN fs \cup {p} |-> IF f = p THEN x ELSE fs[f]]
Step(fs, v, e) ==
  CASE e.op = "render_to" -> With(With(fs, e.stem, [kind |-> "dot", v |-> v]), e.path, [kind |-> KindOf(e.ext), v |-> v])
    [] e.op = "put" -> With(fs, e.path, [kind |-> "other", v |-> 0])
    [] OTHER -> fs

Render(p) == [op |-> "render_to", path |-> p, stem |-> StemOf(p), ext |-> ExtOf(p)]
Ask == {Render(p) : p \in Paths} \cup {[op |-> "put", path |-> f] : f \in Foreign} \cup {[op |-> o] : o \in {"render", "get_svg"}}

Do(e) == /\ Show(e)
         /\ IF Step(files, version, e) # files THEN files' = Step(files, version, e) /\ Reached(e) ELSE UNCHANGED <<files, last>>
         /\ UNCHANGED version
ChangeA == version < Versions /\ version' = version + 1 /\ UNCHANGED files /\ Show([op |-> "change"]) /\ Reached([op |-> "change"])

Init == files = <<>> /\ version = 1 /\ TLCSet(Number, 0) /\ last = [id |-> 0, from |-> 0, op |-> [op |-> "start"]]
Next == ChangeA \/ \E e \in Ask : Do(e)
Spec == Init /\ [][Next]_vars

\* ---------------------------------------------------------------------------
OthersKept == [][last' # last => Kept(files, files', last'.op) /\ NoneAdded(files, files', last'.op)]_vars
\* the image is there, of the format of its extension, and shows the graph as it is
ImageThere == \A p \in Paths : Step(files, version, Render(p))[p] = [kind |-> KindOf(ExtOf(p)), v |-> version]
\* once more makes no difference
Again == \A e \in Ask : LET f == Step(files, version, e) IN Step(f, version, e) = f
\* renderings that do not touch the same files can come in either order
EitherOrder ==
  \A d, e \in Ask : Touched(d) \cap Touched(e) = {} =>
    Step(Step(files, version, d), version, e) = Step(Step(files, version, e), version, d)
\* nothing shows a version that has not been
NotAhead == \A f \in DOMAIN files : files[f].v <= version
=============================================================================
