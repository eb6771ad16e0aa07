-------------------------------- MODULE Mqtt --------------------------------
(* Vocabulary shared by all specifications of the broker.

   A specification of one subsystem ("property module") describes
     - an abstract state, one record,
     - Start(h)       the initial state under configuration header h,
     - Ops(s)         the inputs considered by exhaustive checking,
     - RandOp(s)      one random input for simulation,
     - Step(s, op)    the set of records [s |-> next state, e |-> expected
                      observation] the specification allows,
     - Match(e, x, s) whether the recorded step x of the real broker shows e.
   MC.tla / Trace.tla wrap such a module for TLC.                            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Range(q) == {q[i] : i \in DOMAIN q}
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : y >= x
Has(r, f) == f \in DOMAIN r
Get(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d
SumOf(S, F(_)) ==
  LET RECURSIVE G(_)
      G(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN F(x) + G(T \ {x})
  IN G(S)
Count(q, P(_)) == Cardinality({i \in DOMAIN q : P(q[i])})
IsSubseq(p, q) ==   \* p is a (not necessarily contiguous) subsequence of q
  LET RECURSIVE G(_, _)
      G(i, j) == IF i > Len(p) THEN TRUE
                 ELSE IF j > Len(q) THEN FALSE
                 ELSE IF p[i] = q[j] THEN G(i+1, j+1) ELSE G(i, j+1)
  IN G(1, 1)
SameBag(p, q) == /\ Len(p) = Len(q)
                 /\ \A x \in Range(p) \cup Range(q) :
                      Count(p, LAMBDA y : y = x) = Count(q, LAMBDA y : y = x)
Pick(S) == RandomElement(S)
Chance(n) == RandomElement(1..100) <= n

\* ------------------------------------------------------------- topics
(* Topic names and filters are sequences of levels (strings). *)
RECURSIVE MatchFrom(_, _, _, _)
MatchFrom(f, i, t, j) ==
  IF i > Len(f) THEN j > Len(t)
  ELSE IF f[i] = "#" THEN TRUE            \* also the parent level
  ELSE IF j > Len(t) THEN FALSE
  ELSE IF f[i] = "+" \/ f[i] = t[j] THEN MatchFrom(f, i+1, t, j+1)
  ELSE FALSE
DollarLevels == {"$SYS", "$x", "$"}
TopicMatch(f, t) ==
  /\ ~(f[1] \in {"+", "#"} /\ t[1] \in DollarLevels)
  /\ MatchFrom(f, 1, t, 1)

\* ------------------------------------------------- observations of one step
OutT(x, t) == SelectSeq(x.out, LAMBDA o : o.t = t)
OutK(x, k, t) == SelectSeq(x.out, LAMBDA o : o.t = t /\ o.k = k)
ClosedKs(x) == {x.closed[i].k : i \in DOMAIN x.closed}
OutKs(x) == {x.out[i].k : i \in DOMAIN x.out}
Quiet(x) == x.out = <<>> /\ x.closed = <<>>
=============================================================================
