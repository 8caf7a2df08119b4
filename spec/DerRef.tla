------------------------------- MODULE DerRef -------------------------------
(***************************************************************************)
(* What a generic decode must report, twice and without the machine:       *)
(*   Expect(tree, off)  from the abstract tree an input was encoded from   *)
(*   Walk(x, lo, hi)    by recursive descent over the octets               *)
(* Both are [ok, evs, err].                                                *)
(***************************************************************************)
EXTENDS DerMachine, Encoder

Done(evs) == [ok |-> TRUE, evs |-> evs, err |-> <<>>]
Stop(evs, e) == [ok |-> FALSE, evs |-> evs, err |-> e]
(* then(a, f): continue after a unless it stopped *)
Glue(a, b) == IF ~a.ok THEN a ELSE [b EXCEPT !.evs = a.evs \o b.evs]

HeadLen(n) == 1 + Len(EncLen(n))
Borrow(lo, n) == IF n = 0 THEN 0 ELSE lo

(* primitive kinds that lend their contents *)
Lends == {"Integer", "OctetString", "UTF8String", "PrintableString", "IA5String", "ExplicitTag"}
LeafEvent(n, off) ==
  LET len == Len(n.c)
      lo == off + HeadLen(len)
      bits == n.kind = "BitString" /\ n.v[2] = 1
  IN [e |-> "T", k |-> n.kind, v |-> n.v,
      a |-> IF n.kind \in Lends THEN Borrow(lo, len)
            ELSE IF bits THEN Borrow(lo + 1, len - 1) ELSE 0,
      n |-> IF n.kind \in Lends THEN len ELSE IF bits THEN len - 1 ELSE 0,
      lo |-> lo, hi |-> lo + len]

RECURSIVE Expect(_, _)
RECURSIVE ExpectAll(_, _)
ExpectAll(nodes, off) ==
  IF nodes = <<>> THEN Done(<<>>)
  ELSE LET a == Expect(Head(nodes), off)
       IN IF ~a.ok THEN a ELSE Glue(a, ExpectAll(Tail(nodes), off + Len(Enc(Head(nodes)))))
Expect(n, off) ==
  CASE n.t = "p" -> Done(<<LeafEvent(n, off)>>)
    [] n.t = "x" -> Stop(<<>>, n.err)
    [] n.t = "c" ->
         LET body == Encs(n.kids)
             lo == off + HeadLen(Len(body))
             hd == [e |-> "T", k |-> CASE n.id = 48 -> "Sequence" [] n.id = 49 -> "Set" [] OTHER -> "ExplicitTag",
                    v |-> IF n.id \in {48, 49} THEN <<>> ELSE <<n.id % 32>>,
                    a |-> Borrow(lo, Len(body)), n |-> Len(body), lo |-> lo, hi |-> lo + Len(body)]
             a == ExpectAll(n.kids, lo)
         IN Glue(Done(<<hd, EvBegin>>), Glue(a, Done(<<EvEnd>>)))

(* the whole call *)
Call(res) == res.evs \o (IF res.ok THEN <<EvReturn(<<>>)>> ELSE <<EvError(res.err), EvReturn(res.err)>>)

RECURSIVE Walk(_, _, _)
Walk(x, lo, hi) ==
  IF lo = hi THEN Done(<<>>)
  ELSE LET el == Elem(x, lo, hi) IN
       IF ~el.ok THEN Stop(<<>>, el.err)
       ELSE LET me == Done(<<EvType(x, el)>>)
                inner == IF el.k \in Constructed
                         THEN Glue(Glue(Done(<<EvBegin>>), Walk(x, el.lo, el.hi)), Done(<<EvEnd>>))
                         ELSE Done(<<>>)
                a == Glue(me, inner)
            IN IF ~a.ok THEN a ELSE Glue(a, Walk(x, el.next, hi))
WalkAll(x) == Walk(x, 0, ILen(x))

(* events moved by d octets *)
Shift(evs, d) ==
  [i \in DOMAIN evs |->
     IF evs[i].e # "T" THEN evs[i]
     ELSE [evs[i] EXCEPT !.a = IF evs[i].n = 0 THEN 0 ELSE @ + d, !.lo = @ + d, !.hi = @ + d]]
=============================================================================
