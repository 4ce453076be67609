------------------------------- MODULE FileOps -------------------------------
(***************************************************************************)
(* Renderings to files (G23): a folder is a function from path to what is  *)
(* found there.                                                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

KindOf(ext) ==
  CASE ext \in {"png", "PNG", "Png"} -> "png"
    [] ext \in {"svg", "SVG"} -> "svg"
    [] ext \in {"pdf", "PDF"} -> "pdf"
    [] ext \in {"jpg", "jpeg", "jpe", "JPG"} -> "jpg"
    [] ext \in {"gif", "GIF"} -> "gif"
    [] ext = "ps" -> "ps"
    [] ext = "eps" -> "eps"
    [] ext \in {"dot", "gv", "DOT"} -> "dot"     \* Graphviz's text formats name the graph's own language
    [] ext = "json" -> "json"
    [] ext = "plain" -> "plain"
    [] ext = "webp" -> "webp"

\* what a rendering may touch: the image, and Graphviz's own source beside it
Touched(e) == CASE e.op = "render_to" -> {e.path, e.stem} [] e.op = "put" -> {e.path} [] OTHER -> {}

\* what has to have become of a folder; the image is the graph's, in the format of the extension
Kept(files, after, e) == \A f \in DOMAIN files \ Touched(e) : f \in DOMAIN after /\ after[f] = files[f]
NoneAdded(files, after, e) == DOMAIN after \subseteq DOMAIN files \cup Touched(e)
=============================================================================
