------------------------------ MODULE GCCorpus ------------------------------
(* Values the small-scope models start from. *)
EXTENDS GCApply
W(n) == IntToW(n)
MinI == -2147483647-1
P31  == <<0,0,32768,0>>      P53o == <<0,32,0,1>>    MinL == <<32768,0,0,0>>
MaxL == <<32767,65535,65535,65535>>
R1   == <<16368,0,0,0>>      Rm1  == <<49136,0,0,0>> R15 == <<16376,0,0,0>>
Rm0  == <<32768,0,0,0>>      R31  == <<16864,0,0,0>> \* 2^31
R31h == <<16863,65535,65504,0>> \* 2^31-0.5
R63  == <<17376,0,0,0>>      R64  == <<17392,0,0,0>> Rm63 == <<50144,0,0,0>>
Tiny == <<0,0,0,1>>
Ints  == {0,1,-1,2147483647,MinI}
Longs == {W(0),W(1),W(-1),W(2147483647),P31,P53o,MaxL,MinL,<<65535,65535,32767,65535>>}
Reals == {ZeroW,Rm0,R1,Rm1,R15,R31,R31h,R63,R64,Rm63,Tiny,PInfW,NInfW,NaNW,<<50144,0,0,1>>,<<16879,65535,65504,0>>}
Strs  == {<<>>,<<97>>,<<97,0,98>>,<<255,10>>}
Cplxs == { <<r,i>> : r \in {ZeroW,R1,R15,R31,NaNW}, i \in {ZeroW,Rm0,R1,Tiny} }
Pays(k) == CASE k = 1 -> {0,5} [] k = 2 -> {0,1} [] k = 3 -> Ints [] k = 4 -> Longs
             [] k = 5 -> Reals [] k = 6 -> Cplxs [] k = 7 -> Strs
(* a few payloads per kind *)
P2(k) == CASE k = 1 -> {0,5} [] k = 2 -> {0,1} [] k = 3 -> {-1,2147483647} [] k = 4 -> {W(7),P53o}
           [] k = 5 -> {R15,Rm0} [] k = 6 -> {<<R15,R1>>,<<R1,ZeroW>>} [] k = 7 -> {<<>>,<<97,0,98>>}
A1(k) == CHOOSE x \in P2(k) : TRUE
A2(k) == CHOOSE x \in P2(k) : x # A1(k)
Scal == { <<k,x>> : k \in 1..7, x \in {0} }  \* shape only, see ScalAll
ScalAll == UNION { { <<k,x>> : x \in Pays(k) } : k \in 1..7 }
Scal2   == UNION { { <<k,x>> : x \in P2(k) } : k \in 1..7 }
Vecs == UNION { { <<k,<<>>>>, <<k,<<A1(k-7)>>>>, <<k,<<A2(k-7),A1(k-7),A2(k-7)>>>> } : k \in 8..14 }
Mats == UNION { { <<k,0,0,<<>>>>, <<k,0,2,<<>>>>, <<k,1,1,<<A1(k-12)>>>>, <<k,1,2,<<A1(k-12),A2(k-12)>>>>,
                  <<k,3,2,<<A1(k-12),A2(k-12),A2(k-12),A1(k-12),A1(k-12),A2(k-12)>>>> } : k \in 15..18 }
Ka == <<97>>  Kb == <<98>>  Kab == <<97,98>>  K0 == <<>>
LInt == <<TVEC,<<<<3,7>>,<<3,8>>>>>>
Lists == { <<TVEC,<<>>>>, <<TVEC,<<NoVal>>>>, LInt, <<TVEC,<<<<2,1>>,<<4,P31>>,<<5,R15>>>>>>,
           <<TVEC,<<<<7,<<97>>>>,<<7,<<>>>>>>>>, <<TVEC,<<<<10,<<1,2>>>>,<<11,<<W(3),W(4)>>>>>>>>,
           <<TVEC,<<LInt,<<TVEC,<<<<5,R15>>,<<2,1>>>>>>>>>>, <<TVEC,<<<<3,7>>,<<20,<<<<Ka,<<3,1>>>>>>>>>>>>,
           <<TVEC,<<<<6,<<R1,ZeroW>>>>,<<3,2>>,<<7,<<97>>>>>>>>, <<TVEC,<<<<12,<<R1>>>>,<<3,5>>>>>> }
MapsS == { <<TMAP,<<>>>>, <<TMAP,<<<<Ka,<<3,1>>>>>>>>, <<TMAP,<<<<K0,NoVal>>,<<Kab,<<7,<<98>>>>>>>>>>,
           <<TMAP,<<<<Ka,<<TMAP,<<<<Kb,<<5,R15>>>>>>>>>>,<<Kb,LInt>>>>>> }
MapsM == MapsS \cup
         { <<TMAP,<<<<Ka,<<TMAP,<<>>>>>>,<<Kab,<<12,<<R15>>>>>>>>>>,
           <<TMAP,<<<<Ka,<<TMAP,<<<<Ka,<<TMAP,<<<<Kb,<<2,1>>>>>>>>>>,<<Kb,<<3,9>>>>>>>>>>>>>>,
           <<TMAP,<<<<Ka,<<TMAP,<<<<Ka,<<TMAP,<<<<Kab,<<2,0>>>>>>>>>>,<<Kab,LInt>>>>>>>>,<<Kb,NoVal>>>>>>,
           <<TMAP,<<<<Kb,<<TMAP,<<<<Ka,<<3,1>>>>>>>>>>>>>> }
All  == {NoVal} \cup Scal2 \cup Vecs \cup Mats \cup Lists \cup MapsS
(* contents that differ as little as possible *)
Near == UNION { { <<4,x>>, <<11,<<W(1),x>>>>, <<16,1,1,<<x>>>> } : x \in {<<0,32,0,0>>,P53o,<<32768,32,0,1>>} }
   \cup UNION { { <<5,x>>, <<12,<<R1,x>>>>, <<17,1,1,<<x>>>>, <<6,<<R1,x>>>>, <<6,<<x,R1>>>>, <<13,<<<<x,R1>>>>>>, <<18,1,1,<<<<R1,x>>>>>> } :
                x \in {R1,<<16368,0,0,1>>,Tiny} }
   \cup UNION { { <<3,x>>, <<10,<<1,x>>>>, <<15,1,1,<<x>>>> } : x \in {0,-1,MinI} }
   \cup UNION { { <<7,x>>, <<14,<<<<97>>,x>>>>, <<TMAP,<<<<x,<<3,1>>>>>>>> } : x \in {<<97>>,<<97,0>>,<<97,0,98>>,<<65>>} }
Kinds == 1..20
NumVals == {NoVal} \cup ScalAll \cup Vecs \cup Mats \cup Lists
VecLike == {NoVal} \cup Scal2 \cup Vecs \cup Mats \cup Lists \cup MapsS
=============================================================================
