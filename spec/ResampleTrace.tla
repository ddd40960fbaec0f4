---------------------------- MODULE ResampleTrace ----------------------------
(* Recorded conversions: the options and the file, the numbers of the input,  *)
(* and for each data set of the output its kind, its grid, the (up to three)   *)
(* components of the input, and the output (times 64) at some of its points.  *)
EXTENDS Resample, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
R == Trace[l]
Bad(why) == PrintT("@J " \o ToJson([line |-> l, why |-> why]))
Tol == 9
Cl(a, b, t) == Abs(a - b) <= t
(* R.out: the grid that was written; n is that of the output cell            *)
Grid == LET s == R.out \o [j \in 1..(3 - Len(R.out)) |-> 1] IN Shape(R.o, s)
PointOk(C, fr, x) ==
  \E i \in {<<x.i[1], x.i[2], x.i[3]>>} :
    IF R.kind = "vec" THEN
       \E z \in Vectors(C, fr, R.f, R.o, Grid, i, R.d) : \A c \in I3 : Cl(z[c][1], x.v[c][1], Tol + 4) /\ Cl(z[c][2], x.v[c][2], Tol + 4)
    ELSE \E z \in Values(C, R.f, R.o, Grid, i, R.d[1], R.kind = "cplx") : Cl(z[1], x.v[1][1], Tol) /\ (R.kind = "cplx" => Cl(z[2], x.v[1][2], Tol))
Points2 == \E C \in {LET X == Axis(R.f, R.o) IN <<X[1], X[2], X[3]>>}, fr \in {Frame(R.f, R.o)} :
  \A p \in 1..Len(R.pts) : IF PointOk(C, fr, R.pts[p]) THEN TRUE ELSE Bad("value at output point " \o ToString(R.pts[p].i) \o ": " \o ToString(R.pts[p].v))
Init == l \in 1..8
Next == /\ l <= Len(Trace) /\ l' = l + 8
        /\ IF Len(R.out) # R.f.rank THEN Bad("rank of the output")
           ELSE IF ~\A j \in I3 : OutDim(R.f, R.o, j, Grid[j]) THEN Bad("size of the output " \o ToString(R.out))
           ELSE IF ~R.same THEN Bad("the input was changed")
           ELSE Points2
TSpec == Init /\ [][Next]_<<l>>
Accepted == TLCGet("stats").distinct = Len(Trace) + 8
=============================================================================
