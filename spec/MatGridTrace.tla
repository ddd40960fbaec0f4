------------------------------ MODULE MatGridTrace ------------------------------
(* kind "e": epsilon at all grid points (times F) before and after a change of   *)
(* the data.  "d": printed derivatives.  "g": derivatives of a frequency, from   *)
(* the fields and by differences.  "s": data saved, loaded, randomised.          *)
(* "m": data matched to a file.                                                  *)
EXTENDS MatGrid, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
R == Trace[l]
Bad(why) == PrintT("@J " \o ToJson([line |-> l, why |-> why]))
Near(x, y, t) == x - y <= t /\ y - x <= t
Pt(n, m) == <<(m - 1) \div (n[2] * n[3]), ((m - 1) \div n[3]) % n[2], (m - 1) % n[3]>>
EpsOk == IF Len(R.eps) # R.s.n[1] * R.s.n[2] * R.s.n[3] THEN Bad("wrong number of points")
  ELSE \A m \in 1..Len(R.eps) : \E e \in {EpsAt(R.s, Pt(R.s.n, m))} :
         IF Near(e, R.eps[m], 64) THEN TRUE ELSE Bad("epsilon at " \o ToString(Pt(R.s.n, m)) \o " is " \o ToString(R.eps[m]) \o " instead of " \o ToString(e) \o " (1 is 16384)")
\* all grids that occur, in the order of the objects, the default last
RECURSIVE Order(_, _)
Order(ms, k) == IF k = 0 THEN <<>> ELSE LET q == Order(ms, k - 1) IN
  IF ms[k].t = "grid" /\ ~\E i \in 1..Len(q) : q[i] = ms[k].g THEN Append(q, ms[k].g) ELSE q
Used(s) == LET ms == [i \in 1..(Len(s.objs) + 1) |-> IF i <= Len(s.objs) THEN s.objs[i].m ELSE s.default] IN Order(ms, Len(ms))
Len1(s, g) == Len(s.grids[g].data)
RECURSIVE Flatten(_, _)
Flatten(s, q) == IF q = <<>> THEN <<>> ELSE [i \in 1..Len1(s, Head(q)) |-> <<Head(q), i>>] \o Flatten(s, Tail(q))
DepOk == \E ix \in {Flatten(R.s, Used(R.s))} : IF Len(R.d) # R.s.n[1] * R.s.n[2] * R.s.n[3] \/ \E m \in 1..Len(R.d) : Len(R.d[m]) # Len(ix) THEN Bad("wrong number of derivatives")
  ELSE \A m \in 1..Len(R.d) : \E ch \in {ChainAt(R.s, Pt(R.s.n, m))} : \E us \in {Vals(R.s, ch)} :
    Smooth(R.s, ch, us) => \A i \in 1..Len(ix) : \E e \in {IF ch = <<>> THEN 0 ELSE DEps(R.s, ch, us, ix[i][1], ix[i][2])} :
       IF Near(e, R.d[m][i], 96) THEN TRUE ELSE Bad("the derivative of epsilon at " \o ToString(Pt(R.s.n, m)) \o " by datum " \o ToString(ix[i]) \o " is " \o ToString(R.d[m][i]) \o " instead of " \o ToString(e))
\* analytic twice (from the same fields), differences forwards and backwards
Ab2(x) == IF x < 0 THEN 0 - x ELSE x
GradOk == LET fd == (R.fd[1] + R.fd[2]) \div 2 curv == Ab2(R.fd[1] - R.fd[2]) IN
  IF ~Near(R.an[1], R.an[2], 30 + Ab2(R.an[1]) \div 50) THEN Bad("two evaluations of the derivative differ: " \o ToString(R.an))
  ELSE IF ~Near(R.an[1], R.all, 30 + Ab2(R.an[1]) \div 50) THEN Bad("the printed gradient has another derivative: " \o ToString(<<R.an[1], R.all>>))
  ELSE IF Near(fd, R.an[1], 60 + curv \div 2 + Ab2(fd) \div 40) THEN TRUE
  ELSE Bad("the derivative of the frequency is " \o ToString(R.an[1]) \o " but the change " \o ToString(R.fd))
SaveOk == \E dd \in {[i \in 1..Len(R.data) |-> R.data[i] * (F \div 16)]} : \E ld \in {Loaded(R.N, dd, R.M, [j \in D3 |-> IF R.per[j] = 0 THEN 1 ELSE R.per[j]])} :
  IF R.file # [i \in 1..Len(dd) |-> R.data[i]] THEN Bad("the file does not hold the data: " \o ToString(R.file))
  ELSE IF R.fdims # (IF R.N[3] = 1 THEN IF R.N[2] = 1 THEN <<R.N[1]>> ELSE <<R.N[1], R.N[2]>> ELSE R.N) THEN Bad("the file has the dimensions " \o ToString(R.fdims))
  ELSE IF R.again # dd THEN Bad("loading into a grid of the same size does not give the data back: " \o ToString(R.again))
  ELSE IF Len(R.other) # Len(ld) \/ \E i \in 1..Len(ld) : ~Near(R.other[i], ld[i], 8) THEN Bad("loading into another grid gives " \o ToString(R.other) \o " instead of " \o ToString(ld))
  ELSE IF \E i \in 1..Len(dd) : R.rnd[i] < 0 \/ R.rnd[i] > F THEN Bad("randomising leaves [0,1]: " \o ToString(R.rnd))
  ELSE IF \E i \in 1..Len(dd) : ~Near(R.rnd[i], dd[i], (F * R.noise) \div 16 + 1) THEN Bad("randomising changes a value by more than the noise: " \o ToString(R.rnd))
  ELSE IF R.noise >= 4 /\ Len(dd) >= 4 /\ R.rnd = dd THEN Bad("randomising changes nothing")
  ELSE TRUE
RECURSIVE SumSq(_, _, _)
SumSq(a, b, k) == IF k = 0 THEN 0 ELSE SumSq(a, b, k - 1) + LET d == (a[k] - b[k]) \div 64 IN IF Ab2(d) > 4000 THEN 16000000 \div Len(a) ELSE (d * d) \div Len(a)
MatchOk == \E b \in {SumSq(R.want, R.before, Len(R.want))}, a \in {SumSq(R.want, R.after, Len(R.want))} :
  IF \E i \in 1..Len(R.data) : R.data[i] < 0 \/ R.data[i] > F THEN Bad("matched data outside [0,1]")
  ELSE IF a > b + 4 THEN Bad("matching is worse than before: " \o ToString(<<b, a>>))
  ELSE IF R.convex /\ a > 30 THEN Bad("epsilon of the same grid is not matched: mean square " \o ToString(<<b, a>>))
  ELSE TRUE
Init == l \in 1..8
Next == /\ l <= Len(Trace) /\ l' = l + 8
        /\ CASE R.kind = "e" -> EpsOk [] R.kind = "d" -> DepOk [] R.kind = "g" -> GradOk [] R.kind = "s" -> SaveOk [] OTHER -> MatchOk
TSpec == Init /\ [][Next]_<<l>>
Accepted == TLCGet("stats").distinct = Len(Trace) + 8
================================================================================
