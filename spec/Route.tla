------------------------------- MODULE Route --------------------------------
(* P01: which clients receive a message.  A client receives a published message iff, at the
   moment the broker handles the PUBLISH, one of its subscriptions matches the topic. *)
EXTENDS Mqtt
CONSTANTS NC, MaxOnline

Lvls == {"a", "b", "", "$x", "sport", "e"}
Filters == {<<"a">>, <<"a","b">>, <<"+","b">>, <<"a","#">>, <<"#">>, <<"+">>, <<"+","+">>, <<"$x","#">>, <<"a","+","b">>, <<"","a">>, <<"+","#">>}
Topics == {<<"a">>, <<"a","b">>, <<"b">>, <<"","a">>, <<"a","a","b">>, <<"a","">>}
SrvTopics == {<<"$x">>, <<"$x","a">>, <<"a">>}
C == 1..NC

(* who[k] = client behind connection k; cur[c] = its live connection or 0 *)
Start(h) == [cur |-> [c \in C |-> 0], ver |-> [c \in C |-> 5], who |-> <<>>, subs |-> [c \in C |-> {}], np |-> 1]
Headers == {[cfg |-> [hook |-> [enable_unsubscribe |-> TRUE]]]}
RandHeaders == Headers

Cid(c) == "c" \o ToString(c)
OpConnect(s, c, v) == [t |-> "connect", k |-> Len(s.who) + 1, cid |-> Cid(c), c |-> c, v |-> v, cs |-> 1, ka |-> 0, auto |-> 1]
OpSub(s, c, F, q) == [t |-> "sub", k |-> s.cur[c], pid |-> 1, fs |-> [i \in DOMAIN F |-> [f |-> F[i], q |-> q]]]
OpUnsub(s, c, F) == [t |-> "unsub", k |-> s.cur[c], pid |-> 2, fs |-> [i \in DOMAIN F |-> [f |-> F[i]]]]
OpPub(s, c, t, q) == [t |-> "pub", k |-> s.cur[c], lv |-> t, qos |-> q, pid |-> s.np, pl |-> s.np]
OpSrv(s, c, t, q) == [t |-> "srvpub", k |-> s.cur[c], lv |-> t, qos |-> q, pl |-> s.np]
OpEnd(s, c, how) == IF how = "disc" THEN [t |-> "disc", k |-> s.cur[c], rc |-> 0] ELSE [t |-> how, k |-> s.cur[c]]

Live(s) == {c \in C : s.cur[c] # 0}
Ops(s) ==
  UNION {
    {OpConnect(s, c, v) : c \in {c \in C : s.cur[c] = 0}, v \in {4, 5}},
    {OpSub(s, c, <<f>>, 0) : c \in Live(s), f \in Filters},
    UNION {{OpUnsub(s, c, <<f>>) : f \in s.subs[c] \cup {<<"a","b">>}} : c \in Live(s)},
    {OpPub(s, c, t, 0) : c \in Live(s), t \in Topics},
    {OpSrv(s, c, t, 0) : c \in Live(s), t \in SrvTopics},
    {OpEnd(s, c, "disc") : c \in Live(s)} }

RLevel(z) == IF Chance(70) THEN Pick({"a", "b"}) ELSE Pick(Lvls)
RTopic(z) == LET n == Pick(1..4) t == [i \in 1..n |-> RLevel(i)]
             IN IF t = <<"">> THEN <<"a">> ELSE t
RSafe(z) == LET t == RTopic(z) IN IF t[1] = "$x" THEN <<"a">> \o Tail(t) ELSE t
RFilter(z) == LET n == Pick(1..4)
                  m == [i \in 1..n |-> IF Chance(25) THEN "+" ELSE RLevel(i)]
                  f == IF Chance(25) THEN SubSeq(m, 1, n-1) \o <<"#">> ELSE m
              IN IF f = <<"">> THEN <<"+">> ELSE f
RFilterFor(s, c) == IF s.subs[c] # {} /\ Chance(60) THEN Pick(s.subs[c]) ELSE RFilter(c)
RandOp(s) ==
  IF Live(s) = {} \/ (Cardinality(Live(s)) < NC /\ Chance(35))
  THEN OpConnect(s, Pick({c \in C : s.cur[c] = 0}), Pick({3, 4, 5, 5}))
  ELSE LET c == Pick(Live(s)) d == Pick(1..100) IN
       IF d <= 30 THEN OpSub(s, c, [i \in 1..Pick({1,1,2,3}) |-> RFilterFor(s, c)], Pick(0..2))
       ELSE IF d <= 45 THEN OpUnsub(s, c, [i \in 1..Pick({1,1,2}) |-> RFilterFor(s, c)])
       ELSE IF d <= 86 THEN OpPub(s, c, RSafe(s), Pick(0..2))
       ELSE IF d <= 93 THEN OpSrv(s, c, RTopic(s), Pick(0..2))
       ELSE OpEnd(s, c, Pick({"disc", "cut", "reset"}))

None == [to |-> {}, lv |-> <<>>, pl |-> 0, closed |-> {}, acks |-> {}]
Receivers(s, t) == {c \in Live(s) : \E f \in s.subs[c] : TopicMatch(f, t)}
Who(s, k) == s.who[k]
Step(s, op) ==
  CASE op.t = "connect" ->
         {[s |-> [s EXCEPT !.cur[op.c] = op.k, !.ver[op.c] = op.v, !.who = Append(@, op.c)],
           e |-> [None EXCEPT !.acks = {<<op.k, "connack">>}]]}
    [] op.t = "sub" ->
         {[s |-> [s EXCEPT !.subs[Who(s, op.k)] = @ \cup {op.fs[i].f : i \in DOMAIN op.fs}],
           e |-> [None EXCEPT !.acks = {<<op.k, "suback">>}]]}
    [] op.t = "unsub" ->
         {[s |-> [s EXCEPT !.subs[Who(s, op.k)] = @ \ {op.fs[i].f : i \in DOMAIN op.fs}],
           e |-> [None EXCEPT !.acks = {<<op.k, "unsuback">>}]]}
    [] op.t \in {"pub", "srvpub"} ->
         {[s |-> [s EXCEPT !.np = @ + 1],
           e |-> [None EXCEPT !.to = {s.cur[c] : c \in Receivers(s, op.lv)}, !.lv = op.lv, !.pl = op.pl]]}
    [] op.t \in {"disc", "cut", "reset"} ->
         {[s |-> [s EXCEPT !.cur[Who(s, op.k)] = 0, !.subs[Who(s, op.k)] = {}],
           e |-> [None EXCEPT !.closed = {op.k}]]}
    [] OTHER -> {}

Match(e, x, s) ==
  LET P == OutT(x, "publish") IN
  /\ {P[i].k : i \in DOMAIN P} = e.to
  /\ \A i \in DOMAIN P : P[i].lv = e.lv /\ P[i].pl = e.pl
  /\ ClosedKs(x) = e.closed
  /\ \A a \in e.acks : OutK(x, a[1], a[2]) # <<>>

Absorb(s, e, x) == s
(* a routed message reaches exactly the live clients holding a matching filter *)
Inv(s) == \A c \in C : s.cur[c] = 0 => s.subs[c] = {}
View(s) == <<[c \in C |-> s.cur[c] # 0], [c \in C |-> IF s.cur[c] # 0 THEN s.ver[c] ELSE 0], s.subs>>
Interesting(s, s2, op) == op.t \in {"pub", "srvpub", "disc"}
=============================================================================
