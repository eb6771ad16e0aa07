------------------------------ MODULE KeepAlive ------------------------------
(* P13: when the broker may and when it has to close a connection for silence.
   Time is in milliseconds; the recorded execution moves it in small steps, so
   that the moment of every closing is known up to one step.

   A connection that does not send a CONNECT is closed 5 s after it was opened.
   After CONNECT a connection with effective keep-alive ka > 0 is closed between
   1.5*ka and 2*ka after its last packet, never earlier and never later, and
   nothing but its own packets counts.  ka is the requested value for MQTT 3;
   for MQTT 5 it is clamped to the configured bounds and then announced.      *)
EXTENDS Mqtt
CONSTANTS NC, Small

ConnectTimeout == 5000
Start(h) == [mka |-> h.cfg.min_keep_alive, xka |-> h.cfg.max_keep_alive, now |-> 0, con |-> <<>>, np |-> 1]
Hd(a, b) == [cfg |-> [min_keep_alive |-> a, max_keep_alive |-> b, inflight_timeout |-> 10000000]]
Headers == IF Small THEN {Hd(0, 65535), Hd(3, 65535)} ELSE {Hd(0, 65535), Hd(10, 65535), Hd(0, 20), Hd(5, 9), Hd(0, 65535)}
RandHeaders == Headers

Kas == IF Small THEN {0, 2, 4} ELSE {0, 1, 2, 3, 5, 10, 11, 30, 60, 600, 32768, 65535}
Clamp(x, lo, hi) == IF x > hi THEN hi ELSE IF x < lo THEN lo ELSE x
Eff(s, v, ka) == IF v = 5 THEN Clamp(ka, s.mka, s.xka) ELSE ka

K(s) == DOMAIN s.con
In(s, st) == {k \in K(s) : s.con[k].st = st}
Live(s) == In(s, "live")
Half(s, k) == s.con[k].ka \div 2
(* window in which the silence of k ends its connection, <<>> if it never does *)
Window(s, k) ==
  IF s.con[k].st = "open" THEN <<s.con[k].last + ConnectTimeout, s.con[k].last + ConnectTimeout>>
  ELSE IF s.con[k].ka = 0 THEN <<>>
  ELSE <<s.con[k].last + 3 * Half(s, k), s.con[k].last + 4 * Half(s, k)>>

Parts == {"", "10", "1013", "10130004", "101300044d515454", "101300044d51545405"}
Cids == 1..NC
Cid(c) == "c" \o ToString(c)
Who(s, c) == {k \in Live(s) : s.con[k].c = c}

(* a client that stops in the middle: of CONNECT, of the WebSocket handshake, or after it, or of the PROXY header *)
OpOpen(s, p) == [t |-> "open", k |-> Len(s.con) + 1, pre |-> p]
OpStall(s) == Pick({[t |-> "open", k |-> Len(s.con) + 1, ws |-> 1, rchunk |-> 0, lazy |-> 0, wscut |-> n] : n \in {1, 20, 100, 1000}}
                   \cup {[t |-> "open", k |-> Len(s.con) + 1, pre |-> p, proxy |-> 1] : p \in {"", "0d0a", "0d0a0d0a000d0a515549540a2111000c7f000001"}})
OpConnect(s, k, c, ka) == [t |-> "connect", k |-> k, cid |-> Cid(c), c |-> c, v |-> IF c % 3 = 0 THEN 4 ELSE 5, cs |-> 0, se |-> 4294967, ka |-> ka, auto |-> 1]
OpPkt(s, k, t) ==
  CASE t = "ping" -> [t |-> "ping", k |-> k]
    [] t = "pub" -> [t |-> "pub", k |-> k, lv |-> <<"a">>, qos |-> 0, pid |-> 0, pl |-> s.np]
    [] t = "pub1" -> [t |-> "pub", k |-> k, lv |-> <<"a">>, qos |-> 1, pid |-> 1 + (s.np % 60000), pl |-> s.np]
    [] t = "sub" -> [t |-> "sub", k |-> k, pid |-> 1, fs |-> <<[f |-> <<"a">>, q |-> 0]>>]
    [] OTHER -> [t |-> "unsub", k |-> k, pid |-> 1, fs |-> <<[f |-> <<"a">>]>>]
Virgin(s) == {k \in In(s, "open") : s.con[k].virgin}

Ops(s) ==
  (IF Len(s.con) >= 4 THEN {} ELSE {OpOpen(s, p) : p \in {"", "1013"}} \cup {OpConnect(s, Len(s.con) + 1, c, ka) : c \in 1..2, ka \in Kas})
  \cup {OpConnect(s, k, c, ka) : k \in Virgin(s), c \in 1..2, ka \in {2}}
  \cup {OpPkt(s, k, t) : k \in Live(s), t \in {"ping", "pub"}}
  \cup {[t |-> "cut", k |-> k] : k \in Live(s)}
  \cup {[t |-> "adv", ms |-> m] : m \in {1000, 2500}}

\* time to advance so that some deadline is just before, at, or after
RAdv(s) ==
  LET X == {k \in Live(s) \cup In(s, "open") : Window(s, k) # <<>>} IN
  IF X = {} \/ Chance(20) THEN [t |-> "adv", ms |-> Pick({500, 1000, 2500, 6000})]
  ELSE LET k == Pick(X)
           w == Window(s, k)
           goal == Pick({w[1] - 500, w[1] - 1000, w[1], w[2], w[2] + 500, s.con[k].last + Half(s, k), s.con[k].last + 2 * Half(s, k)})
           ms == Max2(500, goal - s.now)
       IN IF ms > 3000000 THEN [t |-> "adv", ms |-> (ms \div 60000) * 60000, step |-> 60000]
          ELSE IF ms > 60000 THEN [t |-> "adv", ms |-> (ms \div 5000) * 5000, step |-> 5000]
          ELSE [t |-> "adv", ms |-> (ms \div 500) * 500]
RandOp(s) ==
  LET d == Pick(1..100)
      free == Len(s.con) < 24 IN
  IF Live(s) = {} /\ free THEN OpConnect(s, Len(s.con) + 1, Pick(Cids), Pick(Kas))
  ELSE IF free /\ d <= 12 THEN OpConnect(s, Len(s.con) + 1, Pick(Cids), Pick(Kas))
  ELSE IF free /\ d <= 18 THEN IF Chance(35) THEN OpStall(s) ELSE OpOpen(s, Pick(Parts))
  ELSE IF d <= 22 /\ Virgin(s) # {} THEN OpConnect(s, Pick(Virgin(s)), Pick(Cids), Pick(Kas))
  ELSE IF d <= 55 /\ Live(s) # {} THEN OpPkt(s, Pick(Live(s)), Pick({"ping", "ping", "pub", "pub1", "sub", "unsub"}))
  ELSE IF d <= 60 /\ Live(s) # {} THEN [t |-> Pick({"cut", "disc"}), k |-> Pick(Live(s)), rc |-> 0]
  ELSE RAdv(s)

Ev(cl, w, ack) == [closed |-> cl, win |-> w, ack |-> ack]
Dead(s, S) == [s EXCEPT !.con = [k \in K(s) |-> IF k \in S THEN [s.con[k] EXCEPT !.st = "dead"] ELSE s.con[k]]]
NoWin == [k \in {} |-> <<0, 0>>]
Step(s, op) ==
  LET live == Has(op, "k") /\ op.k \in Live(s)
      touched == [s EXCEPT !.con[op.k].last = s.now, !.np = @ + 1] IN
  CASE op.t = "open" ->
         {[s |-> [s EXCEPT !.con = Append(@, [c |-> 0, v |-> 0, ka |-> 0, last |-> s.now, st |-> "open", virgin |-> Get(op, "pre", "x") = "" /\ ~Has(op, "proxy")])],
           e |-> Ev({}, NoWin, <<>>)]}
    [] op.t = "connect" /\ (op.k = Len(s.con) + 1 \/ op.k \in Virgin(s)) ->
         LET ka == Eff(s, op.v, op.ka)
             old == Who(s, op.c)
             cn == [c |-> op.c, v |-> op.v, ka |-> ka * 1000, last |-> s.now, st |-> "live", virgin |-> FALSE]
             s1 == Dead(s, old)
         IN {[s |-> [s1 EXCEPT !.con = IF op.k > Len(@) THEN Append(@, cn) ELSE [@ EXCEPT ![op.k] = cn]],
              e |-> Ev(old, NoWin, <<op.k, "connack", IF op.v = 5 /\ ka # op.ka THEN ka ELSE -1>>)]}
    [] op.t = "adv" ->
         LET t1 == s.now + op.ms
             slack == Get(op, "step", 500)
             X == {k \in Live(s) \cup In(s, "open") : Window(s, k) # <<>>}
             may == {k \in X : Window(s, k)[1] <= t1}
             must == {k \in X : Window(s, k)[2] + slack <= t1}
         IN {[s |-> [Dead(s, S) EXCEPT !.now = t1],
              e |-> Ev(S, [k \in S |-> <<Window(s, k)[1], Window(s, k)[2] + slack>>], <<>>)] : S \in {S \in SUBSET may : must \subseteq S}}
    [] op.t = "skip" -> IF live THEN {} ELSE {[s |-> s, e |-> Ev({}, NoWin, <<>>)]}
    [] ~live -> {}
    [] op.t = "ping" -> {[s |-> touched, e |-> Ev({}, NoWin, <<op.k, "pingresp", -1>>)]}
    [] op.t = "pub" -> {[s |-> touched, e |-> Ev({}, NoWin, IF op.qos = 1 THEN <<op.k, "puback", -1>> ELSE <<>>)]}
    [] op.t = "sub" -> {[s |-> touched, e |-> Ev({}, NoWin, <<op.k, "suback", -1>>)]}
    [] op.t = "unsub" -> {[s |-> touched, e |-> Ev({}, NoWin, <<op.k, "unsuback", -1>>)]}
    [] op.t \in {"cut", "disc"} -> {[s |-> Dead(s, {op.k}), e |-> Ev({op.k}, NoWin, <<>>)]}
    [] OTHER -> {}

Match(e, x, s) ==
  /\ x.panics = <<>>
  /\ ClosedKs(x) = e.closed
  /\ \A i \in DOMAIN x.closed : x.closed[i].k \in DOMAIN e.win =>
       x.closed[i].at >= e.win[x.closed[i].k][1] /\ x.closed[i].at <= e.win[x.closed[i].k][2]
  /\ e.ack # <<>> =>
       LET O == OutK(x, e.ack[1], e.ack[2]) IN
       /\ Len(O) = 1
       /\ e.ack[2] = "connack" => O[1].code = 0 /\ (Get(O[1], "ska", -1) = e.ack[3])
Absorb(s, e, x) == s
Inv(s) ==
  /\ \A k \in Live(s) : s.con[k].ka = 0 \/ s.now <= s.con[k].last + 4 * Half(s, k) + 60000
  /\ \A k, j \in Live(s) : s.con[k].c = s.con[j].c => k = j
View(s) == <<s.mka, [k \in K(s) |-> <<s.con[k].c, s.con[k].ka, s.con[k].st, s.now - s.con[k].last>>]>>
Interesting(s, s2, op) == op.t = "adv" /\ \E k \in K(s) : s.con[k].st # s2.con[k].st
=============================================================================
