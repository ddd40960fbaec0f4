------------------------------ MODULE EnergyMC ------------------------------
(* Identities of the specification, for all small grids and objects:         *)
(* the half-cell walk visits every point once; regions add up.               *)
EXTENDS Energy
CONSTANT Max, MaxC, MaxN, MaxH
VARIABLE x
Dims == {d \in (1..Max) \X (1..Max) \X (1..Max) : d[1] > 1 /\ (d[3] > 1 => d[2] > 1) /\ Size(d) <= MaxN}
Cen(n) == IF n = 1 THEN {0} ELSE {c \in -MaxC..MaxC : c % 2 = 0}
Hs(n) == IF n = 1 THEN {0} ELSE {h \in 0..MaxH : h = 0 \/ h % 2 = 1}
Objs(d) == [t : {"block"}, c : Cen(d[1]) \X Cen(d[2]) \X {0}, h : Hs(d[1]) \X Hs(d[2]) \X {0}, r : {0}]
           \cup [t : {"sphere"}, c : Cen(d[1]) \X Cen(d[2]) \X {0}, h : {<<0,0,0>>}, r : {4}]
(* moved by a lattice vector an object is the same *)
Moves(d, sk, o) == \A i \in 1..2 : d[i] = 1 \/ o.c[i] > 0 \/ o.h[i] > 2 * d[i] \/ Mask(d, sk, o) = Mask(d, sk, [o EXCEPT !.c[i] = @ + 4 * d[i]])
U(d) == [l \in 1..Size(d) |-> l * l + 3]
E(d) == [l \in 1..Size(d) |-> 1 + (l % 4)]
All(d) == Total(U(d))
Init == x \in {[d |-> d, o |-> <<>>, cand |-> {[in |-> Mask(d, sk, o), solid |-> s] : o \in Objs(d), s \in BOOLEAN}] : sk \in BOOLEAN, d \in Dims}
Next == /\ Len(x.o) < 2
        /\ \E o \in x.cand : x' = [x EXCEPT !.o = Append(@, o), !.cand = IF Len(x.o) = 0 THEN @ ELSE {}]
Spec == Init /\ [][Next]_x
Box(m) == [in |-> [l \in 1..Size(x.d) |-> TRUE], solid |-> m]
S(o) == InMasks(x.d, U(x.d), o)
Inv == IF Len(x.o) = 0
       THEN /\ EachOnce(x.d) /\ \A sk \in BOOLEAN : \A o \in Objs(x.d) : Moves(x.d, sk, o)
            /\ S(<<Box(TRUE)>>) = All(x.d) /\ S(<<>>) = 0
            /\ \A c \in 1..8 : InRange(x.d, U(x.d), E(x.d), 0, c) + InRange(x.d, U(x.d), E(x.d), c + 1, 99) = All(x.d)
       ELSE (* a region and its complement *)
       /\ LET comp == [i \in 1..Len(x.o) |-> [x.o[i] EXCEPT !.solid = ~@]]
          IN S(x.o) + S(<<Box(TRUE)>> \o comp) = All(x.d)
       (* inclusion and exclusion; order is irrelevant for solid objects; holes only take away *)
       /\ Len(x.o) = 2 /\ x.o[1].solid /\ x.o[2].solid =>
            /\ S(x.o) = S(<<x.o[2], x.o[1]>>)
            /\ S(<<x.o[1]>>) + S(<<x.o[2]>>) = S(x.o) + Total([l \in 1..Size(x.d) |-> IF x.o[1].in[l] /\ x.o[2].in[l] THEN U(x.d)[l] ELSE 0])
       /\ Len(x.o) = 2 /\ ~x.o[2].solid => S(x.o) <= S(<<x.o[1]>>) /\ S(<<x.o[2], x.o[1]>>) = S(<<x.o[1]>>)
=============================================================================
