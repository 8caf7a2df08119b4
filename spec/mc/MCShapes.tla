------------------------------ MODULE MCShapes ------------------------------
(* The numbers of Shapes, derived from the decoder machine for small sizes *)
EXTENDS MCDer, Shapes
CONSTANT MaxN
InitShapes == \E s \in 1..14, n \in 1..MaxN :
  LET f == ShapeOf(s, n)
      x == Plain(Encs(f))
  IN /\ DerInit([x |-> x, w |-> [t |-> "shape", s |-> s, n |-> n]]) /\ hist = <<>>
     /\ PrintT("CASE " \o ToJson(<<"der", x.pre, x.fb, x.fn, x.post>>))
     /\ PrintT("CASE " \o ToJson(<<"sum", x.pre, x.fb, x.fn, x.post, s, n>>))
DepthOf(h) == LET d(i) == Cnt(SubSeq(h, 1, i), "B") - Cnt(SubSeq(h, 1, i), "E")
              IN CHOOSE m \in 0..Len(h) : (\A i \in 1..Len(h) : d(i) <= m) /\ (m = 0 \/ \E i \in 1..Len(h) : d(i) = m)
ShapeCounts ==
  Ended /\ src.w.t = "shape" =>
    SumOf(src.w.s, src.w.n) =
      Sum(Cnt(hist, "T"), Cnt(hist, "B"), Cnt(hist, "E"), Cnt(hist, "X"), DepthOf(hist), Answer.ok)
=============================================================================
