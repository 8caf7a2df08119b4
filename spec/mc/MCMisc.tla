------------------------------- MODULE MCMisc -------------------------------
(***************************************************************************)
(* Histories of bit string readers, validity windows, and values made by   *)
(* constructors.  Cases are printed as <<mode, pre, fb, fn, post, y...>>.  *)
(***************************************************************************)
EXTENDS BitIter, Encoder, Json

CONSTANT Steps      \* length of the reader's history
VARIABLES left, seen
vars == <<bits, pos, out, left, seen>>

BytesCase(mode, c, y) == PrintT("CASE " \o ToJson(<<mode, c, 0, 0, <<>>>> \o y))

----------------------------------------------------------------------------
(* Bit string readers (C09)                                                *)
Samples == {<<u>> \o d : u \in 0..7, d \in {<<0>>, <<255>>, <<170>>, <<129, 64>>, <<1, 2, 4>>, <<240, 15, 85, 128>>}} \cup {<<0>>}
InitBitReader ==
  \E c \in Samples : LET b == BitContent(Plain(c), 0, Len(c)) IN
    /\ b.ok /\ BitInit(b.v) /\ left = Steps /\ seen = <<>>
    /\ BytesCase("bits", TLV(3, c), <<>>)
    /\ BytesCase("prim", Tail(c), <<3, c[1]>>)
NextBits ==
  /\ left > 0 /\ left' = left - 1
  /\ \/ NextBit /\ seen' = (IF out' = -1 THEN seen ELSE Append(seen, out'))
     \/ \E k \in {0, 1, 7, 8, 9, 17} : Nth(k) /\ seen' = <<2>>
     \/ Count /\ seen' = <<2>>
     \/ LastBit /\ seen' = <<2>>
     \/ CountOnes /\ seen' = <<2>>
     \/ NewIter /\ seen' = <<>>
(* what a fresh iterator yields is the string's prefix, and it never       *)
(* yields more than size bits                                              *)
Expand == [i \in 1..BitSize(bits) |-> BitAt(bits, i - 1)]
YieldsPrefix == (\A i \in DOMAIN seen : seen[i] # 2) => SubSeq(Expand, 1, Len(seen)) = seen
Bounded == pos \in 0..BitSize(bits) /\ out \in -1..BitSize(bits)
InitBitStrings ==     \* more inputs, not explored
  \E u \in 0..9, n \in {0, 1, 2, 3, 31, 32, 33, 100}, f \in 0..3 :
    /\ bits = <<0, 1>> /\ pos = 0 /\ out = 0 /\ left = 0 /\ seen = <<>>
    /\ BytesCase("bits", TLV(3, <<u>> \o [i \in 1..n |-> (f * 85 + i * (f + 1)) % 256]), <<>>)

----------------------------------------------------------------------------
(* Validity windows (C24)                                                  *)
Still == bits = <<0, 1>> /\ pos = 0 /\ out = 0 /\ left = 0 /\ seen = <<>>
Instants == {<<0, 0>>, <<0, 1>>, <<0, 86399>>, <<1, 0>>, <<10957, 43200>>, <<10957, 43201>>, <<10957, 43199>>, <<24855, 11647>>, <<24855, 11648>>, <<49710, 23295>>, <<49710, 23296>>, <<2932896, 86399>>}
(* the present instant, asked for in every eighth of a second *)
InitWindows == \/ \E k \in 0..7 : Still /\ BytesCase("prim", <<>>, <<5, k>>)
               \/ \E a, b, c \in Instants : Still /\ BytesCase("valid", <<>>, a \o b \o c)
(* the same through certificates: the times are encoded *)
Dates == {<<1970, 1, 1, 0, 0, 0>>, <<1999, 12, 31, 23, 59, 59>>, <<2000, 1, 1, 0, 0, 0>>, <<2024, 2, 29, 12, 0, 1>>, <<2038, 1, 19, 3, 14, 8>>, <<2049, 12, 31, 23, 59, 59>>}
LateDates == {<<2050, 1, 1, 0, 0, 0>>, <<9999, 12, 31, 23, 59, 59>>}
Moment(t) == <<DaysSinceEpoch(t[1], t[2], t[3]), SecOfDay(t[4], t[5], t[6])>>
Written(t, g) == IF g THEN Prim(24, GenOctets(t[1], t[2], t[3], t[4], t[5], t[6]), "", <<>>)
                 ELSE Prim(23, UtcOctets(t[1], t[2], t[3], t[4], t[5], t[6]), "", <<>>)
Earlier(m) == IF m[2] = 0 THEN <<m[1] - 1, 86399>> ELSE <<m[1], m[2] - 1>>
Later(m) == IF m[2] = 86399 THEN <<m[1] + 1, 0>> ELSE <<m[1], m[2] + 1>>
WindowCert(nb, na) ==
  LET alg == SeqEl(<<OidEl(<<1, 3, 101, 112>>)>>)
      name == SeqEl(<<>>)
  IN SeqEl(<<SeqEl(<<IntEl(1), alg, name, SeqEl(<<nb, na>>), name, SeqEl(<<alg, BitsEl(<<1>>)>>)>>), alg, BitsEl(<<1>>)>>)
InitCertWindows ==
  \E a, b \in Dates \cup LateDates, g, h \in BOOLEAN :
    /\ a \in LateDates => g
    /\ b \in LateDates => h
    /\ \E now \in {Moment(a), Later(Moment(a)), Moment(b), Later(Moment(b)), <<20000, 5>>} \cup
                  {Earlier(m) : m \in {Moment(a), Moment(b)} \ {<<0, 0>>}} :
         Still /\ BytesCase("valid", Enc(WindowCert(Written(a, g), Written(b, h))), Moment(a) \o Moment(b) \o now)
InWindow(y) == NotAfter(<<y[1], y[2]>>, <<y[5], y[6]>>) /\ NotAfter(<<y[5], y[6]>>, <<y[3], y[4]>>)

----------------------------------------------------------------------------
(* Constructors                                                            *)
IntSamples == {<<>>} \cup {<<a>> : a \in Byte} \cup {<<a, b>> : a \in {0, 1, 127, 128, 255}, b \in {0, 1, 127, 128, 255}}
  \cup {<<a, b, c, d>> : a \in {0, 127, 128, 255}, b \in {0, 255}, c \in {0, 255}, d \in {0, 1, 255}} \cup {<<1, 2, 3>>, <<128, 0, 0>>, <<1, 2, 3, 4, 5>>, [i \in 1..20 |-> 10 * i]}
InitConstructed ==
  \/ \E c \in IntSamples : Still /\ BytesCase("prim", c, <<1>>)
  \/ \E a \in {<<1, 2>>, <<2, 5, 4, 3>>, <<0, 0>>, <<2, 999, 1>>, <<1, 3, 6, 1, 4, 1, 50316, 802, 1>>, <<1, 2, 840, 113549, 1, 9, 2>>, <<2, 5, 4, 12>>, <<2147483647>>}
        \cup {KnownOids[i][1] : i \in DOMAIN KnownOids} \cup {Append(KnownOids[i][1], 0) : i \in DOMAIN KnownOids}
        \cup {SubSeq(KnownOids[i][1], 1, Len(KnownOids[i][1]) - 1) : i \in DOMAIN KnownOids} :
       Still /\ BytesCase("prim", <<>>, <<2>> \o a)
  \/ \E b \in Byte : Still /\ BytesCase("prim", <<b>>, <<4>>)
  \/ \E u \in 0..7, n \in {1, 2, 3, 8, 9} : Still /\ BytesCase("prim", [i \in 1..n |-> (51 * i) % 256], <<3, u>>)
NextStill == FALSE /\ UNCHANGED vars
=============================================================================
