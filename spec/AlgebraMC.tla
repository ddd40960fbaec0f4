------------------------------ MODULE AlgebraMC ------------------------------
(* Laws of the algebra itself, over all small matrices.                        *)
EXTENDS Algebra
CONSTANT Rich
Num == IF Rich THEN {Zc, One, <<0, 1>>, <<1, 0 - 1>>} ELSE {Zc, One, <<0, 1>>}
Sq == {<<<<a, b>>, <<c, d>>>> : a \in Num, b \in Num, c \in Num, d \in Num}
Col == {<<<<a>>, <<b>>>> : a \in {Zc, One, <<1, 0 - 1>>}, b \in {Zc, <<0, 1>>}}
VARIABLES A, B
vars == <<A, B>>
Init == A \in Sq /\ B \in Sq
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
St == [E |-> <<A, B, A>>, Q |-> <<A, B, B>>]
X3 == <<A[1], A[2], B[1]>>
Y3 == <<B[2], A[1], B[1]>>
MulAdjoint == Herm(Mul(A, B)) = Mul(Herm(B), Herm(A))
AssocCol == \A c \in Col : Mul(Mul(A, B), c) = Mul(A, Mul(B, c))
TraceCyclic == Trace0(Mul(A, B)) = Trace0(Mul(B, A))
GramHermitian == Gram(X3, Y3) = Herm(Gram(Y3, X3)) /\ Gram(X3, X3) = Upper2Full(Gram(X3, X3))
GramLinear == Gram(Mul(X3, A), Y3) = Mul(Herm(A), Gram(X3, Y3))
GramRows == Gram(X3, Y3) = AddM(Gram(Block(X3, 0, 0, 1, 2), Block(Y3, 0, 0, 1, 2)), Gram(Block(X3, 1, 0, 2, 2), Block(Y3, 1, 0, 2, 2)))
SliceIsSub == \A ix \in 0..1 : \A iy \in 0..1 : Gram(Block(X3, 0, ix, 3, 1), Block(Y3, 0, iy, 3, 1)) = Block(Gram(X3, Y3), ix, iy, 1, 1)
PutBlock == \A ix \in 0..1 : Put(A, 0, ix, Block(A, 0, ix, 2, 1)) = A /\ Block(Put(A, 0, ix, Block(B, 0, 0, 2, 1)), 0, ix, 2, 1) = Block(B, 0, 0, 2, 1) /\ Block(Put(A, 0, ix, Block(B, 0, 0, 2, 1)), 0, 1 - ix, 2, 1) = Block(A, 0, 1 - ix, 2, 1)
DetMul == Det(Mul(A, B)) = Cmul(Det(A), Det(B))
PositiveGram == ~Indefinite(Gram(X3, X3)) /\ Positive(AddM(Gram(A, A), Identity(2)))
TraceInner == Returns(St, [op |-> "qtrab", x |-> 1, y |-> 2]) = <<Csum(<<Cmul(Conj(A[1][1]), B[1][1]), Cmul(Conj(A[1][2]), B[1][2]), Cmul(Conj(A[2][1]), B[2][1]), Cmul(Conj(A[2][2]), B[2][2])>>, 4)>>
SubWhole == \A d \in 0..1 : Apply(St, [op |-> "eaxpbys", a |-> 0, b |-> 1, x |-> 1, y |-> 2, s |-> 1, i |-> 0, j |-> 0, dag |-> d]).E[1] = Mul(B, Maybe(A, d))
OneTouched == \A o \in {[op |-> "eaxpby", a |-> 2, b |-> 3, x |-> 1, y |-> 1], [op |-> "qaapbb", a |-> 2, b |-> 3, x |-> 1, y |-> 1]} :
  Apply(St, o) = (IF o.op = "eaxpby" THEN [St EXCEPT !.E[1] = ScaleM(5, A)] ELSE [St EXCEPT !.Q[1] = ScaleM(5, A)])
SymTwice == LET m == AddM(A, Herm(A)) IN m = Herm(m)
=============================================================================
