------------------------------- MODULE Broker -------------------------------
(* The whole observable broker as an executable specification.

   State: connections, sessions (subscriptions, outgoing queue, incoming QoS 2
   identifiers, will, lifetime), retained messages, time in whole seconds.
   Step(s, op) is the set of all allowed reactions to one input: the next
   state and what every client must see (packets, closed connections, and the
   client counters).  The relation is nondeterministic where MQTT or the
   broker leaves a choice (member of a shared group, order of retained
   messages, timers that are due together).

   Packets of one connection are compared as three streams: QoS 0 deliveries
   in order, QoS 1/2 deliveries in order, everything else as a bag; CONNACK
   comes before any delivery.  Packet identifiers are not predicted: those the
   broker used are bound to the queue entries (Absorb), after which a
   retransmission has to use the same one and no other message may.          *)
EXTENDS Mqtt

Never == -2                             \* "does not expire" (0xFFFFFFFF on the wire)
LeT(a, b) == b = Never \/ (a # Never /\ a <= b)
LtT(a, b) == a # b /\ LeT(a, b)
MinT(a, b) == IF LeT(a, b) THEN a ELSE b

Cfg(h) ==
  LET c == h.cfg IN
  [qmax |-> Get(c, "max_in_mem_pending_messages", 256), rmc |-> Get(c, "max_inflight_client", 10),
   rms |-> Get(c, "max_inflight_server", 10), mq |-> Get(c, "max_allowed_qos", 2),
   mse |-> Get(h, "mse", Never), ra |-> Get(c, "retain_available", TRUE),
   wild |-> Get(c, "wildcard_subscription_available", TRUE), shared |-> Get(c, "shared_subscription_available", TRUE),
   sida |-> Get(c, "subscription_id_available", TRUE), mka |-> Get(c, "min_keep_alive", 10),
   xka |-> Get(c, "max_keep_alive", 65535), tam |-> Get(c, "topic_alias_max", 65535),
   mps |-> Get(c, "max_packet_size_server", 268435460), mpc |-> Get(c, "max_packet_size_client", 268435460),
   idlen |-> Get(c, "check_v310_client_id_length", FALSE)]

Start(h) == [cfg |-> Cfg(h), now |-> 0, con |-> <<>>, ses |-> <<>>, ret |-> {}, np |-> 1, uid |-> 1]

NoWill == [wd |-> -1]
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

\* -------------------------------------------------------------- messages
Digits(n) == IF n < 10 THEN 1 ELSE IF n < 100 THEN 2 ELSE IF n < 1000 THEN 3 ELSE IF n < 10000 THEN 4 ELSE 5
PlenOf(op, f, fp) == IF Has(op, "plhex") /\ f = "pl" THEN Len(op.plhex) \div 2
                     ELSE IF op[f] = 0 THEN 0 ELSE 1 + Digits(op[f]) + Get(op, fp, 0)
PlOf(op) == IF Has(op, "plhex") THEN (IF op.plhex = "" THEN 0 ELSE -1) ELSE op.pl
HexOf(op) == IF Has(op, "plhex") THEN op.plhex ELSE ""

Msg(s, c, v, op, lv) ==
  [lv |-> lv, pl |-> PlOf(op), plen |-> PlenOf(op, "pl", "pad"), hex |-> HexOf(op), q |-> op.qos, retain |-> Get(op, "retain", 0),
   from |-> c, v |-> v, at |-> s.now,
   exp |-> IF v = 5 THEN Get(op, "exp", -1) ELSE -1, fmt |-> IF v = 5 THEN Get(op, "fmt", -1) ELSE -1,
   ct |-> IF v = 5 THEN Get(op, "ct", "") ELSE "", rt |-> IF v = 5 THEN Get(op, "rt", "") ELSE "",
   cd |-> IF v = 5 THEN Get(op, "cd", "") ELSE "", up |-> IF v = 5 THEN Get(op, "up", <<>>) ELSE <<>>]
WillMsg(c, v, op) ==
  [lv |-> op.wlv, pl |-> op.wpl, plen |-> PlenOf(op, "wpl", "wpad"), hex |-> "", q |-> Get(op, "wq", 0), retain |-> Get(op, "wr", 0),
   from |-> c, v |-> v, at |-> 0,
   exp |-> IF v = 5 THEN Get(op, "wexp", -1) ELSE -1, fmt |-> IF v = 5 THEN Get(op, "wfmt", -1) ELSE -1,
   ct |-> IF v = 5 THEN Get(op, "wct", "") ELSE "", rt |-> IF v = 5 THEN Get(op, "wrt", "") ELSE "",
   cd |-> IF v = 5 THEN Get(op, "wcd", "") ELSE "", up |-> IF v = 5 THEN Get(op, "wup", <<>>) ELSE <<>>]
Expired(m, now) == m.exp >= 0 /\ now - m.at >= m.exp

(* what a client of version v has to see *)
Norm(v, m, q, r, ids, dup, now) ==
  [lv |-> m.lv, pl |-> m.pl, plen |-> m.plen, hex |-> m.hex, qos |-> q, retain |-> r, dup |-> dup,
   exp |-> IF v = 5 /\ m.exp >= 0 THEN Max2(0, m.exp - (now - m.at)) ELSE -1,
   fmt |-> IF v = 5 THEN m.fmt ELSE -1, ct |-> IF v = 5 THEN m.ct ELSE "", rt |-> IF v = 5 THEN m.rt ELSE "",
   cd |-> IF v = 5 THEN m.cd ELSE "", up |-> IF v = 5 THEN m.up ELSE <<>>, sids |-> IF v = 5 THEN ids ELSE {}]
ObsNorm(o) ==
  [lv |-> o.lv, pl |-> o.pl, plen |-> o.plen, hex |-> IF o.pl = -1 THEN o.plhex ELSE "", qos |-> o.qos, retain |-> o.retain, dup |-> o.dup,
   exp |-> o.exp, fmt |-> o.fmt, ct |-> o.ct, rt |-> o.rt, cd |-> o.cd, up |-> o.up, sids |-> Range(o.sids)]

VarLen(n) == IF n < 128 THEN 1 ELSE IF n < 16384 THEN 2 ELSE IF n < 2097152 THEN 3 ELSE 4
LvLen(lv) == SumOf(DOMAIN lv, LAMBDA i : Len(lv[i])) + Len(lv) - 1
StrProp(x) == IF x = "" THEN 0 ELSE 3 + Len(x)
PropLen(fmt, exp, ct, rt, cd, up, ids) ==
  (IF fmt >= 0 THEN 2 ELSE 0) + (IF exp >= 0 THEN 5 ELSE 0) + StrProp(ct) + StrProp(rt) + StrProp(cd)
  + SumOf(DOMAIN up, LAMBDA i : 5 + Len(up[i][1]) + Len(up[i][2])) + SumOf(ids, LAMBDA x : 1 + VarLen(x))
Total(rem) == 1 + VarLen(rem) + rem
SizeV5(tlen, q, plen, props) == Total(2 + tlen + (IF q > 0 THEN 2 ELSE 0) + VarLen(props) + props + plen)
SizeV3(tlen, q, plen) == Total(2 + tlen + (IF q > 0 THEN 2 ELSE 0) + plen)
TooLarge(s, k, m, q, ids) ==
  s.con[k].v = 5 /\ s.con[k].mp < 268435460 /\
  SizeV5(LvLen(m.lv), q, m.plen, PropLen(m.fmt, m.exp, m.ct, m.rt, m.cd, m.up, ids)) > s.con[k].mp

\* --------------------------------------------- expected packets (work record)
(* w = [s state, o expected packets in order, cl closed connections,
        bag connections whose deliveries may come in any order]             *)
Send(w, k, t, n) == [w EXCEPT !.o = Append(@, [k |-> k, t |-> t, uid |-> 0, pid |-> 0, n |-> n])]
SendPub(w, k, uid, pid, n) == [w EXCEPT !.o = Append(@, [k |-> k, t |-> "publish", uid |-> uid, pid |-> pid, n |-> n])]
Work(s) == [s |-> s, o |-> <<>>, cl |-> {}, bag |-> {}]

\* -------------------------------------------------- the queue of one session
RECURSIVE Clean(_)
Clean(q) == IF q # <<>> /\ Head(q).st = "done" THEN Clean(Tail(q)) ELSE q

Push(w, c, m, q, r, ids) ==
  LET q1 == Clean(w.s.ses[c].q) IN
  IF Len(q1) >= w.s.cfg.qmax THEN [w EXCEPT !.s.ses[c].q = q1]
  ELSE [w EXCEPT !.s.ses[c].q = Append(q1, [uid |-> w.s.uid, m |-> m, q |-> q, r |-> r, ids |-> ids, st |-> "new",
                                           pid |-> 0, dup |-> 0, ls |-> FALSE]),
                 !.s.uid = @ + 1]

RECURSIVE FlushMan(_, _)
FlushMan(w, c) ==
  LET k == w.s.ses[c].own
      v == w.s.con[k].v
      q == Clean(w.s.ses[c].q)
      win == Min2(w.s.con[k].rm, Len(q))
      bad(i) == i <= win /\ q[i].st = "new" /\ ~q[i].ls /\ (Expired(q[i].m, w.s.now) \/ TooLarge(w.s, k, q[i].m, q[i].q, q[i].ids))
      go(i) == i <= win /\ q[i].st # "done" /\ ~q[i].ls /\ ~bad(i)
      q2 == [i \in DOMAIN q |-> IF bad(i) THEN [q[i] EXCEPT !.st = "done"]
                                ELSE IF go(i) THEN [q[i] EXCEPT !.ls = TRUE, !.dup = 1] ELSE q[i]]
      RECURSIVE Out(_, _)
      Out(u, i) == IF i > win THEN u
                   ELSE IF ~go(i) THEN Out(u, i+1)
                   ELSE IF q[i].st = "new"
                        THEN Out(SendPub(u, k, q[i].uid, q[i].pid, Norm(v, q[i].m, q[i].q, q[i].r, q[i].ids, q[i].dup, w.s.now)), i+1)
                        ELSE Out(Send(u, k, "pubrel", [pid |-> q[i].pid, code |-> 0]), i+1)
      w2 == Out([w EXCEPT !.s.ses[c].q = q2], 1)
  IN IF \E i \in 1..win : bad(i) THEN FlushMan(w2, c) ELSE w2

(* a connection whose client completes every handshake at once *)
FlushAuto(w, c) ==
  LET k == w.s.ses[c].own
      v == w.s.con[k].v
      q == w.s.ses[c].q
      RECURSIVE Out(_, _)
      Out(u, i) == IF i > Len(q) THEN u
                   ELSE IF q[i].st = "done" THEN Out(u, i+1)
                   ELSE IF q[i].st = "rec" THEN Out(Send(u, k, "pubrel", [pid |-> q[i].pid, code |-> 0]), i+1)
                   ELSE IF Expired(q[i].m, w.s.now) \/ TooLarge(w.s, k, q[i].m, q[i].q, q[i].ids) THEN Out(u, i+1)
                   ELSE Out(SendPub(u, k, q[i].uid, q[i].pid, Norm(v, q[i].m, q[i].q, q[i].r, q[i].ids, q[i].dup, w.s.now)), i+1)
  IN Out([w EXCEPT !.s.ses[c].q = <<>>], 1)
Flush(w, c) == IF w.s.ses[c].own = 0 \/ w.s.ses[c].q = <<>> THEN w
               ELSE IF w.s.con[w.s.ses[c].own].auto THEN w ELSE FlushMan(w, c)
(* their acknowledgements arrive once the broker has handled the input completely *)
RECURSIVE FlushAutos(_, _)
FlushAutos(w, T) ==
  IF T = {} THEN w
  ELSE LET c == CHOOSE c \in T : TRUE IN FlushAutos(FlushAuto(w, c), T \ {c})
Settle(w) == FlushAutos(w, {c \in DOMAIN w.s.ses : w.s.ses[c].q # <<>> /\ w.s.ses[c].own # 0 /\ w.s.con[w.s.ses[c].own].auto})

(* one copy of m for session c, subscribed with QoS sq *)
Give(w, c, m, sq, r, ids) ==
  LET k == w.s.ses[c].own q == Min2(m.q, sq) IN
  IF q > 0 THEN Push(w, c, m, q, r, ids)
  ELSE IF k = 0 \/ TooLarge(w.s, k, m, 0, ids) THEN w
  ELSE SendPub(w, k, 0, 0, Norm(w.s.con[k].v, m, 0, r, ids, 0, w.s.now))

\* --------------------------------------------------------------- routing
(* a subscription: [sh group or "", f filter, q, nl, rap, sid] *)
SubIds(S) == {x.sid : x \in {y \in S : y.sid > 0}}
Hits(s, c, lv) == {x \in s.ses[c].subs : TopicMatch(x.f, lv)}
RECURSIVE Perms(_)
Perms(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o p : p \in Perms(S \ {x})} : x \in S}
RECURSIVE AnyOrder(_)
AnyOrder(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o AnyOrder(S \ {x})

(* all ways to serve message m published by client c: sets of copies *)
Assignments(s, m, c) ==
  LET hit == [d \in DOMAIN s.ses |-> Hits(s, d, m.lv)]
      plain == [d \in DOMAIN s.ses |-> {x \in hit[d] : x.sh = "" /\ ~(m.v = 5 /\ d = c /\ x.nl = 1)}]
      groups == UNION {{<<x.sh, x.f>> : x \in {y \in hit[d] : y.sh # ""}} : d \in DOMAIN s.ses}
      members(g) == {d \in DOMAIN s.ses : \E x \in hit[d] : x.sh = g[1] /\ x.f = g[2]}
      picks == {f \in [groups -> DOMAIN s.ses] : \A g \in groups : f[g] \in members(g)}
      of(f, d) == plain[d] \cup {x \in hit[d] : x.sh # "" /\ f[<<x.sh, x.f>>] = d}
      rap(x) == m.retain = 1 /\ s.cfg.ra /\ x.rap = 1
      copy(d, S) == [c |-> d, key |-> {<<x.sh, x.f>> : x \in S}, q |-> SetMax({x.q : x \in S}),
                     r |-> IF s.ses[d].v = 5 /\ (\E x \in S : rap(x)) THEN 1 ELSE 0, ids |-> SubIds(S)]
  IN IF groups = {}
     THEN {UNION {IF plain[d] = {} THEN {} ELSE IF m.v = 5 THEN {copy(d, plain[d])} ELSE {copy(d, {x}) : x \in plain[d]} : d \in DOMAIN s.ses}}
     ELSE {UNION {LET S == of(f, d) IN IF S = {} THEN {} ELSE IF m.v = 5 THEN {copy(d, S)} ELSE {copy(d, {x}) : x \in S} : d \in DOMAIN s.ses}
           : f \in picks}
Matched(s, lv) == \E d \in DOMAIN s.ses : Hits(s, d, lv) # {}
OnlyOwnNoLocal(s, c, lv) == \A d \in DOMAIN s.ses : \A x \in Hits(s, d, lv) : d = c /\ x.nl = 1

IsAuto(s, c) == s.ses[c].own # 0 /\ s.con[s.ses[c].own].auto
(* orders in which the copies can reach one receiver *)
Orders(s, A) ==
  LET R == {x.c : x \in A}
      RECURSIVE G(_)
      G(T) == IF T = {} THEN {<<>>}
              ELSE LET d == CHOOSE d \in T : TRUE
                       mine == {x \in A : x.c = d}
                       ps == IF IsAuto(s, d) /\ Len(s.ses[d].q) + Cardinality(mine) <= s.cfg.qmax THEN {AnyOrder(mine)} ELSE Perms(mine)
                   IN {p \o r : p \in ps, r \in G(T \ {d})}
  IN G(R)
Several(s, A) == {s.ses[x.c].own : x \in {x \in A : IsAuto(s, x.c) /\ \E y \in A : y # x /\ y.c = x.c}}

Deliver(w, m, seq) ==
  LET RECURSIVE G(_, _)
      G(u, i) == IF i > Len(seq) THEN u ELSE G(Give(u, seq[i].c, m, seq[i].q, seq[i].r, seq[i].ids), i+1)
      RECURSIVE F(_, _)
      F(u, T) == IF T = {} THEN u ELSE LET d == CHOOSE d \in T : TRUE IN F(Flush(u, d), T \ {d})
  IN F(G(w, 1), {seq[i].c : i \in DOMAIN seq})

Store(w, m) ==
  IF m.retain = 0 THEN w
  ELSE LET R == {x \in w.s.ret : x.lv # m.lv} IN [w EXCEPT !.s.ret = IF m.plen = 0 THEN R ELSE R \cup {m}]
(* the set of works after m, published by client c, was handled *)
PublishMsg(w, m, c) ==
  LET w1 == Store(w, m) IN
  UNION {{[Deliver(w1, m, seq) EXCEPT !.bag = @ \cup Several(w1.s, A)] : seq \in Orders(w1.s, A)} : A \in Assignments(w1.s, m, c)}

\* ------------------------------------------------- end of connections/sessions
RemoveSes(w, c) == [w EXCEPT !.s.ses = Drop(@, c)]
Close(w, k) == [w EXCEPT !.s.con[k].live = FALSE, !.cl = @ \cup {k}]
WillNow(w, c) ==   \* publish the will of c, if it has one
  LET wl == w.s.ses[c].will
      w1 == [w EXCEPT !.s.ses[c].will = NoWill, !.s.ses[c].wat = -1] IN
  IF wl.wd < 0 THEN {w} ELSE PublishMsg(w1, [wl.m EXCEPT !.at = w.s.now], c)

EndConn(w, k, normal) ==
  LET c == w.s.con[k].c
      w0 == Close(w, k)
      w1 == [w0 EXCEPT !.s.ses[c].own = 0, !.s.ses[c].will = IF normal THEN NoWill ELSE @]
      ss == w1.s.ses[c]
      W2 == IF ss.will.wd < 0 THEN {w1}
            ELSE IF ss.will.wd = 0 \/ ss.se = 0 THEN WillNow(w1, c)
            ELSE IF LtT(ss.will.wd, ss.se) THEN {[w1 EXCEPT !.s.ses[c].wat = w.s.now + ss.will.wd]}
            ELSE {w1}
  IN {IF ss.se = 0 THEN RemoveSes(u, c)
      ELSE [u EXCEPT !.s.ses[c].xat = IF ss.se = Never THEN -1 ELSE w.s.now + ss.se] : u \in W2}
(* the broker ends the connection because of what the client sent *)
Fail(w, k, code) == EndConn(IF w.s.con[k].v = 5 THEN Send(w, k, "disconnect", [code |-> code]) ELSE w, k, FALSE)

\* ----------------------------------------------------------------- time
Due(s, c) == IF s.ses[c].own # 0 THEN {}
             ELSE {t \in {s.ses[c].wat, s.ses[c].xat} : t >= 0}
RECURSIVE Advance(_, _)
Advance(w, T) ==
  LET D == UNION {Due(w.s, c) : c \in DOMAIN w.s.ses}
      t == SetMin(D)
  IN IF D = {} \/ SetMin(D) > T THEN {[w EXCEPT !.s.now = T]}
     ELSE UNION {
       LET w1 == [w EXCEPT !.s.now = t] IN
       UNION {Advance(Settle(u), T) :
              u \in IF w.s.ses[c].wat = t THEN WillNow(w1, c)
                    ELSE {RemoveSes(x, c) : x \in WillNow(w1, c)}}
       : c \in {c \in DOMAIN w.s.ses : t \in Due(w.s, c)}}

\* --------------------------------------------------------------- CONNECT
HasWill(op) == Has(op, "wlv") /\ op.wlv # <<>>
NoTopic(lv) == lv \in {<<>>, <<"">>}
(* 0 accepted, -1 closed without an answer, otherwise the refusal code *)
Verdict(s, op) ==
  LET v == op.v IN
  IF v # 5 THEN
    IF v = 3 /\ (op.cid = "" \/ (s.cfg.idlen /\ Len(op.cid) > 23)) THEN 2
    ELSE IF v = 4 /\ op.cid = "" /\ op.cs = 0 THEN 2
    ELSE IF HasWill(op) /\ (NoTopic(op.wlv) \/ op.wlv[1] \in DollarLevels) THEN -1
    ELSE 0
  ELSE IF Get(op, "rm", 1) = 0 \/ Get(op, "mp", 1) = 0 THEN 130
  ELSE IF Has(op, "ad") /\ ~Has(op, "am") THEN 130
  ELSE IF HasWill(op) /\ (NoTopic(op.wlv) \/ op.wlv[1] \in DollarLevels) THEN -1
  ELSE IF Has(op, "am") THEN 140
  ELSE IF HasWill(op) /\ Get(op, "wr", 0) = 1 /\ ~s.cfg.ra THEN 154
  ELSE IF HasWill(op) /\ Get(op, "wq", 0) > s.cfg.mq THEN 155
  ELSE 0

Clamp(x, lo, hi) == IF x > hi THEN hi ELSE IF x < lo THEN lo ELSE x
Lim(s) == s.cfg
Connack(s, op, sp, se, ka) ==
  [code |-> 0, sp |-> sp, v |-> op.v, se |-> se, reqse |-> Get(op, "se", 0), ka |-> ka, reqka |-> op.ka, acid |-> op.cid = ""]
Refused(op, code) == [code |-> code, sp |-> 0, v |-> op.v, se |-> 0, reqse |-> 0, ka |-> 0, reqka |-> 0, acid |-> FALSE]

Connect(s, op) ==
  LET k == op.k v == op.v
      c == IF op.cid = "" THEN "~" \o ToString(k) ELSE op.cid
      code == Verdict(s, op)
      ka == IF v = 5 THEN Clamp(op.ka, s.cfg.mka, s.cfg.xka) ELSE op.ka
      se == IF v = 5 THEN MinT(Get(op, "se", 0), s.cfg.mse) ELSE IF op.cs = 1 THEN 0 ELSE Never
      cn(live) == [c |-> c, v |-> v, live |-> live, auto |-> Get(op, "auto", 0) = 1,
                   rm |-> IF v = 5 THEN Get(op, "rm", s.cfg.rmc) ELSE s.cfg.rmc,
                   mp |-> IF v = 5 THEN Get(op, "mp", s.cfg.mpc) ELSE 268435460,
                   tam |-> IF v = 5 THEN Get(op, "tam", 0) ELSE 0, al |-> {}]
      will == IF HasWill(op) THEN [wd |-> IF v = 5 THEN Get(op, "wd", 0) ELSE 0, m |-> WillMsg(c, v, op)] ELSE NoWill
      w0 == Work([s EXCEPT !.con = Append(@, cn(FALSE))])
      old == s.ses[c]
      known == c \in DOMAIN s.ses
      fresh == [v |-> v, own |-> k, se |-> se, subs |-> {}, q |-> <<>>, in2 |-> {}, will |-> will, wat |-> -1, xat |-> -1]
      enter(w) == Flush([w EXCEPT !.s.con[k].live = TRUE], c)
      bye(w) == IF old.own = 0 THEN w
                ELSE Close(IF v = 5 THEN Send(w, old.own, "disconnect", [code |-> 142]) ELSE w, old.own)
      oldwill == old.will.wd >= 0 /\ (v # 5 \/ op.cs = 1 \/ old.se = 0 \/ old.will.wd = 0)
      resume == op.cs = 0 /\ old.v = v
      ack(w, sp) == Send(w, k, "connack", Connack(s, op, sp, se, ka))
      keep == [old EXCEPT !.own = k, !.se = se, !.will = will, !.wat = -1, !.xat = -1,
                          !.q = [i \in DOMAIN @ |-> [@[i] EXCEPT !.ls = FALSE]]]
      gone == [w0 EXCEPT !.s.ses[c].own = 0]
  IN IF k # Len(s.con) + 1 THEN {}
     ELSE IF code = -1 THEN {Close(w0, k)}
     ELSE IF code # 0 THEN {Close(Send(w0, k, "connack", Refused(op, code)), k)}
     ELSE IF ~known THEN {enter(ack([w0 EXCEPT !.s.ses = Put(@, c, fresh)], 0))}
     ELSE IF (old.v = 5) # (v = 5) THEN {Close(w0, k)}
     ELSE IF resume
     THEN LET w1 == enter(ack([bye(w0) EXCEPT !.s.ses[c] = keep], 1)) IN
          IF oldwill THEN PublishMsg(w1, [old.will.m EXCEPT !.at = s.now], c) ELSE {w1}
     ELSE {enter(ack([RemoveSes(u, c) EXCEPT !.s.ses = Put(@, c, fresh)], 0))
           : u \in {bye(x) : x \in IF oldwill THEN WillNow(gone, c) ELSE {gone}}}

\* --------------------------------------------------------------- PUBLISH
OpSize(v, op) ==
  IF v # 5 THEN SizeV3(LvLen(op.lv), op.qos, PlenOf(op, "pl", "pad"))
  ELSE SizeV5(LvLen(op.lv), op.qos, PlenOf(op, "pl", "pad"),
              PropLen(Get(op, "fmt", -1), Get(op, "exp", -1), Get(op, "ct", ""), Get(op, "rt", ""), Get(op, "cd", ""), Get(op, "up", <<>>),
                      IF Has(op, "sid") THEN {op.sid} ELSE {}) + (IF Has(op, "ta") THEN 3 ELSE 0))
Publish(w, op) ==
  LET s == w.s k == op.k cn == s.con[k] v == cn.v c == cn.c
      ta == IF v = 5 THEN Get(op, "ta", -1) ELSE -1
      known == {x \in cn.al : x.a = ta}
      lv == IF ta > 0 /\ NoTopic(op.lv) /\ known # {} THEN (CHOOSE x \in known : TRUE).lv ELSE op.lv
      bad == IF OpSize(v, op) > s.cfg.mps THEN 149
             ELSE IF op.lv # <<>> /\ op.lv[1] \in DollarLevels THEN 144
             ELSE IF op.qos = 0 /\ Get(op, "dup", 0) = 1 THEN 130
             ELSE IF v # 5 THEN (IF NoTopic(op.lv) THEN 130 ELSE 0)
             ELSE IF op.qos > s.cfg.mq THEN 155
             ELSE IF ta = 0 \/ ta > s.cfg.tam THEN 148
             ELSE IF NoTopic(op.lv) /\ (ta = -1 \/ known = {}) THEN 130
             ELSE IF Has(op, "sid") THEN 130
             ELSE 0
      w1 == IF ta > 0 /\ ~NoTopic(op.lv)
            THEN [w EXCEPT !.s.con[k].al = {x \in @ : x.a # ta} \cup {[a |-> ta, lv |-> op.lv]}] ELSE w
      m == Msg(s, c, v, op, lv)
      fp == [m EXCEPT !.at = 0]
      same == {x \in s.ses[c].in2 : x.pid = op.pid}
      codes == IF v # 5 THEN {0}
               ELSE IF ~Matched(s, lv) THEN {16} ELSE IF OnlyOwnNoLocal(s, c, lv) THEN {0, 16} ELSE {0}
      rel(u) == IF cn.auto THEN Send([u EXCEPT !.s.ses[c].in2 = {x \in @ : x.pid # op.pid}], k, "pubcomp", [pid |-> op.pid, code |-> 0]) ELSE u
  IN IF bad # 0 THEN Fail(w, k, bad)
     ELSE IF op.qos = 0 THEN PublishMsg(w1, m, c)
     ELSE IF op.qos = 1
     THEN UNION {{Send(u, k, "puback", [pid |-> op.pid, code |-> x]) : u \in PublishMsg(w1, m, c)} : x \in codes}
     ELSE IF same # {}
     THEN IF \E x \in same : x.fp # fp
          THEN IF v = 5 THEN {Send(w1, k, "pubrec", [pid |-> op.pid, code |-> 145])} ELSE Fail(w1, k, 0)
          ELSE IF Get(op, "dup", 0) = 0 THEN Fail(w1, k, 130)
          ELSE {rel(Send(w1, k, "pubrec", [pid |-> op.pid, code |-> 0]))}
     ELSE IF v = 5 /\ Cardinality(s.ses[c].in2) >= s.cfg.rms THEN Fail(w1, k, 147)
     ELSE UNION {{rel(Send([u EXCEPT !.s.ses[c].in2 = @ \cup {[pid |-> op.pid, fp |-> fp]}], k, "pubrec", [pid |-> op.pid, code |-> x]))
                  : u \in PublishMsg(w1, m, c)} : x \in codes}

\* ------------------------------------------------------- acknowledgements
InWin(s, k) == LET q == s.ses[s.con[k].c].q IN 1..Min2(s.con[k].rm, Len(q))
Target(s, op, st, qq) ==
  LET q == s.ses[s.con[op.k].c].q IN
  {i \in InWin(s, op.k) : q[i].st = st /\ q[i].q \in qq /\ q[i].ls
      /\ IF Has(op, "pid") THEN q[i].pid = op.pid ELSE q[i].m.pl = op.pl}
SetSt(w, c, I, st) == [w EXCEPT !.s.ses[c].q = [i \in DOMAIN @ |-> IF i \in I THEN [@[i] EXCEPT !.st = st] ELSE @[i]]]
Puback(w, op) == {SetSt(w, w.s.con[op.k].c, Target(w.s, op, "new", {1}), "done")}
Pubrec(w, op) ==
  LET c == w.s.con[op.k].c v == w.s.con[op.k].v
      I == Target(w.s, op, "new", {2})
      R == Target(w.s, op, "rec", {1, 2})
      pid == Get(op, "pid", 0)
      codes == IF v # 5 \/ I # {} THEN {0} ELSE IF R # {} THEN {0, 146} ELSE {146}
  IN IF v = 5 /\ Get(op, "rc", 0) >= 128 THEN {SetSt(w, c, I \cup R, "done")}
     ELSE {Send(SetSt(w, c, I, "rec"), op.k, "pubrel", [pid |-> pid, code |-> x]) : x \in codes}
Pubcomp(w, op) == {SetSt(w, w.s.con[op.k].c, Target(w.s, op, "rec", {1, 2}), "done")}
Pubrel(w, op) ==
  LET c == w.s.con[op.k].c v == w.s.con[op.k].v
      hit == \E x \in w.s.ses[c].in2 : x.pid = op.pid
  IN IF ~hit /\ v # 5 THEN Fail(w, op.k, 0)
     ELSE {Send([w EXCEPT !.s.ses[c].in2 = {x \in @ : x.pid # op.pid}], op.k, "pubcomp", [pid |-> op.pid, code |-> IF hit THEN 0 ELSE 146])}

\* ------------------------------------------------------ SUBSCRIBE/UNSUBSCRIBE
Wild(f) == \E i \in DOMAIN f : f[i] \in {"+", "#"}
SubRec(v, f, q, sid) ==
  [sh |-> Get(f, "sh", ""), f |-> f.f, q |-> q, nl |-> IF v = 5 THEN Get(f, "nl", 0) ELSE 0,
   rap |-> IF v = 5 THEN Get(f, "rap", 0) ELSE 0, sid |-> IF v = 5 THEN sid ELSE -1]
(* retained messages for a new subscription x of client c *)
Retained(s, c, x) ==
  IF ~s.cfg.ra \/ x.sh # "" THEN {}
  ELSE {m \in s.ret : TopicMatch(x.f, m.lv) /\ ~Expired(m, s.now) /\ ~(x.nl = 1 /\ m.from = c)}
OneFilter(w, k, f, sid) ==    \* set of [w, code]
  LET s == w.s c == s.con[k].c v == s.con[k].v
      q == Min2(Get(f, "q", 0), s.cfg.mq)
      x == SubRec(v, f, q, sid)
      code == IF v # 5 THEN q
              ELSE IF ~s.cfg.sida /\ sid >= 0 THEN 161
              ELSE IF ~s.cfg.shared /\ x.sh # "" THEN 158
              ELSE IF ~s.cfg.wild /\ Wild(x.f) THEN 162
              ELSE q
      had == \E y \in s.ses[c].subs : y.sh = x.sh /\ y.f = x.f
      rh == IF v = 5 THEN Get(f, "rh", 0) ELSE 0
      w1 == [w EXCEPT !.s.ses[c].subs = {y \in @ : ~(y.sh = x.sh /\ y.f = x.f)} \cup {x}]
      R == IF rh = 2 \/ (rh = 1 /\ had) THEN {} ELSE Retained(s, c, x)
      age(m) == IF m.exp < 0 THEN m ELSE [m EXCEPT !.exp = @ - (s.now - m.at), !.at = s.now]
      r == IF v = 5 THEN x.rap ELSE 1
      RECURSIVE G(_, _, _)
      G(u, p, i) == IF i > Len(p) THEN u ELSE G(Give(u, c, age(p[i]), q, r, SubIds({x})), p, i+1)
      auto == s.con[k].auto
      ps == IF auto /\ R # {} /\ Len(s.ses[c].q) + Cardinality(R) <= s.cfg.qmax THEN {AnyOrder(R)} ELSE Perms(R)
  IN IF code >= 128 THEN {[w |-> w, code |-> code]}
     ELSE {[w |-> [Flush(G(w1, p, 1), c) EXCEPT !.bag = IF auto THEN @ \cup {k} ELSE @], code |-> code] : p \in ps}
Subscribe(w, op) ==
  LET k == op.k v == w.s.con[k].v sid == IF v = 5 THEN Get(op, "sid", -1) ELSE -1
      RECURSIVE G(_, _, _)
      G(u, codes, i) == IF i > Len(op.fs) THEN {Send(u, k, "suback", [pid |-> op.pid, codes |-> codes])}
                        ELSE UNION {G(r.w, Append(codes, r.code), i+1) : r \in OneFilter(u, k, op.fs[i], sid)}
  IN IF v # 5 /\ \E i \in DOMAIN op.fs : Get(op.fs[i], "sh", "") # "" THEN Fail(w, k, 0)
     ELSE IF sid = 0 THEN Fail(w, k, 130)
     ELSE G(w, <<>>, 1)
Unsubscribe(w, op) ==
  LET k == op.k c == w.s.con[k].c v == w.s.con[k].v
      is(x, f) == x.sh = Get(f, "sh", "") /\ x.f = f.f
      RECURSIVE G(_, _, _)
      G(S, codes, i) ==
        IF i > Len(op.fs)
        THEN {Send([w EXCEPT !.s.ses[c].subs = S], k, "unsuback", [pid |-> op.pid, codes |-> IF v = 5 THEN codes ELSE <<>>])}
        ELSE G({x \in S : ~is(x, op.fs[i])}, Append(codes, IF \E x \in S : is(x, op.fs[i]) THEN 0 ELSE 17), i+1)
  IN G(w.s.ses[c].subs, <<>>, 1)

Disc(w, op) ==
  LET k == op.k c == w.s.con[k].c v == w.s.con[k].v
      se == IF v = 5 THEN Get(op, "se", -1) ELSE -1
      w1 == IF se = -1 THEN w ELSE [w EXCEPT !.s.ses[c].se = MinT(se, w.s.cfg.mse)]
  IN IF se # -1 /\ se # 0 /\ w.s.ses[c].se = 0 THEN Fail(w, k, 130)
     ELSE EndConn(w1, k, v # 5 \/ Get(op, "rc", 0) = 0)

SrvPub(w, op) ==    \* the embedding program publishes in the name of a client
  LET c == w.s.con[op.k].c v == w.s.con[op.k].v IN
  {Send(u, op.k, "unsuback", [pid |-> 65000, codes |-> IF v = 5 THEN <<17>> ELSE <<>>]) : u \in PublishMsg(w, Msg(w.s, c, v, op, op.lv), c)}

Live(s) == {k \in DOMAIN s.con : s.con[k].live}
Bump(s, op) == [s EXCEPT !.np = Max2(@, 1 + Max2(Get(op, "pl", 0), Max2(Get(op, "wpl", 0), 0)))]
Finish(w0, op) ==
  LET w == Settle(w0) IN
  [s |-> Bump(w.s, op),
   e |-> [o |-> w.o, cl |-> w.cl, bag |-> w.bag, online |-> Cardinality(Live(w.s)), clients |-> Cardinality(DOMAIN w.s.ses)]]
(* after any packet of a live client its queue is looked at again *)
Again(W, k) == {IF u.s.con[k].live THEN Flush(u, u.s.con[k].c) ELSE u : u \in W}

Works(s, op) ==
  LET w == Work(s)
      live == Has(op, "k") /\ op.k \in DOMAIN s.con /\ s.con[op.k].live IN
  CASE op.t = "connect" -> Connect(s, op)
    [] op.t = "adv" -> Advance(w, s.now + op.ms \div 1000)
    [] op.t = "stat" -> {w}
    [] op.t = "skip" -> IF ~live \/ op.was \in {"puback", "pubrec", "pubcomp"} THEN {w} ELSE {}
    [] ~live -> {}
    [] op.t = "pub" -> Again(Publish(w, op), op.k)
    [] op.t = "srvpub" -> Again(SrvPub(w, op), op.k)
    [] op.t = "sub" -> Again(Subscribe(w, op), op.k)
    [] op.t = "unsub" -> Again(Unsubscribe(w, op), op.k)
    [] op.t = "puback" -> Again(Puback(w, op), op.k)
    [] op.t = "pubrec" -> Again(Pubrec(w, op), op.k)
    [] op.t = "pubrel" -> Again(Pubrel(w, op), op.k)
    [] op.t = "pubcomp" -> Again(Pubcomp(w, op), op.k)
    [] op.t = "ping" -> Again({Send(w, op.k, "pingresp", [code |-> 0])}, op.k)
    [] op.t = "disc" -> Disc(w, op)
    [] op.t \in {"cut", "reset"} -> EndConn(w, op.k, FALSE)
    [] OTHER -> {}
Step(s, op) == {Finish(w, op) : w \in Works(s, op)}

\* ------------------------------------------------------------- observation
NormO(o) ==
  CASE o.t \in {"puback", "pubrec", "pubrel", "pubcomp"} -> [pid |-> o.pid, code |-> o.code]
    [] o.t \in {"suback", "unsuback"} -> [pid |-> o.pid, codes |-> o.codes]
    [] o.t = "disconnect" -> [code |-> o.code]
    [] o.t = "pingresp" -> [code |-> 0]
    [] OTHER -> [unknown |-> o.t]

ConnackOk(s, n, o) ==
  /\ o.code = n.code
  /\ o.sp = n.sp
  /\ IF n.v # 5 \/ n.code # 0 THEN TRUE
     ELSE /\ IF o.se = -1 THEN n.se = n.reqse ELSE o.se = n.se
          /\ (IF o.ska = -1 THEN n.reqka ELSE o.ska) = n.ka
          /\ (IF o.rm = -1 THEN 65535 ELSE o.rm) = s.cfg.rms
          /\ (IF o.mq = -1 THEN 2 ELSE o.mq) = s.cfg.mq
          /\ (o.ra # 0) = s.cfg.ra /\ (o.wsa # 0) = s.cfg.wild /\ (o.sia # 0) = s.cfg.sida /\ (o.ssa # 0) = s.cfg.shared
          /\ (IF o.mp = -1 THEN 268435460 ELSE o.mp) = s.cfg.mps
          /\ (IF o.tam = -1 THEN 0 ELSE o.tam) = s.cfg.tam
          /\ (o.acid # "") = n.acid

MatchK(e, x, s, k) ==
  LET E == SelectSeq(e.o, LAMBDA y : y.k = k)
      O == SelectSeq(x.out, LAMBDA y : y.k = k)
      cn == s.con[k]
      EP(q0) == SelectSeq(E, LAMBDA y : y.t = "publish" /\ (y.n.qos = 0) = q0)
      OP(q0) == SelectSeq(O, LAMBDA y : y.t = "publish" /\ (y.qos = 0) = q0)
      same(q0) == LET a == EP(q0) b == OP(q0)
                      an == [i \in DOMAIN a |-> a[i].n]
                      bn == [i \in DOMAIN b |-> ObsNorm(b[i])]
                  IN Len(a) = Len(b) /\ (an = bn \/ (k \in e.bag /\ SameBag(an, bn)))
      eq == EP(FALSE)
      oq == OP(FALSE)
      ses == s.ses[cn.c]
      pidsOk == /\ \A i \in DOMAIN oq : oq[i].pid > 0
                /\ cn.auto \/
                   /\ \A i \in DOMAIN oq : eq[i].pid \in {0, oq[i].pid}
                   /\ \A i, j \in DOMAIN oq : i # j => oq[i].pid # oq[j].pid
                   /\ \A i \in DOMAIN oq : \A j \in DOMAIN ses.q :
                        ~(ses.q[j].st # "done" /\ ses.q[j].uid # eq[i].uid /\ ses.q[j].pid = oq[i].pid)
      oth(y) == y.t # "publish" /\ y.t # "connack" /\ ~(cn.auto /\ y.t = "pubrel")
      EO == SelectSeq(E, oth)
      OO == SelectSeq(O, oth)
      ER == SelectSeq(E, LAMBDA y : cn.auto /\ y.t = "pubrel")
      OR == SelectSeq(O, LAMBDA y : cn.auto /\ y.t = "pubrel")
      rel == [i \in DOMAIN OR |-> <<OR[i].pid, OR[i].code>>]
      q2 == SelectSeq(oq, LAMBDA y : y.qos = 2)
      relX == [i \in DOMAIN ER |-> <<ER[i].n.pid, 0>>] \o [i \in DOMAIN q2 |-> <<q2[i].pid, 0>>]
      EC == SelectSeq(E, LAMBDA y : y.t = "connack")
      OC == SelectSeq(O, LAMBDA y : y.t = "connack")
  IN /\ same(TRUE) /\ same(FALSE)
     /\ (oq = <<>> \/ pidsOk)
     /\ SameBag([i \in DOMAIN EO |-> <<EO[i].t, EO[i].n>>], [i \in DOMAIN OO |-> <<OO[i].t, NormO(OO[i])>>])
     /\ ~cn.auto \/ SameBag(rel, relX)
     /\ Len(EC) = Len(OC)
     /\ \A i \in DOMAIN EC : ConnackOk(s, EC[i].n, OC[i])
     /\ EC = <<>> \/ O[1].t = "connack"
     /\ \A i \in DOMAIN O : O[i].t = "publish" => O[i].ta \in {-1} \cup 1..cn.tam /\ O[i].sz <= cn.mp

(* the WebSocket handshake is not part of the MQTT conversation *)
NoWs(x0) == [x0 EXCEPT !.out = SelectSeq(@, LAMBDA o : ~(o.t = "wsup" /\ o.code = 101) /\ ~(o.t = "ws" /\ o.opcode \in {8, 9, 10}))]
Match(e, x0, s) ==
  LET x == NoWs(x0) IN
  /\ x.panics = <<>>
  /\ ClosedKs(x) = e.cl
  /\ x.online = e.online
  /\ x.clients = e.clients
  /\ OutKs(x) \subseteq {e.o[i].k : i \in DOMAIN e.o}
  /\ \A k \in {e.o[i].k : i \in DOMAIN e.o} : MatchK(e, x, s, k)

(* bind the packet identifiers the broker chose *)
Absorb(s, e, x) ==
  LET ks == {k \in {x.out[i].k : i \in {i \in DOMAIN x.out : x.out[i].t = "publish" /\ x.out[i].qos > 0}} : ~s.con[k].auto}
      B(k) == LET eq == SelectSeq(e.o, LAMBDA y : y.k = k /\ y.t = "publish" /\ y.n.qos > 0)
                  oq == SelectSeq(x.out, LAMBDA y : y.k = k /\ y.t = "publish" /\ y.qos > 0)
              IN {<<eq[i].uid, oq[i].pid>> : i \in DOMAIN eq}
  IN IF ks = {} THEN s
     ELSE LET all == UNION {B(k) : k \in ks}
              uids == {b[1] : b \in all}
              pid(u) == (CHOOSE b \in all : b[1] = u)[2]
          IN [s EXCEPT !.ses = [c \in DOMAIN @ |->
                LET q == s.ses[c].q IN
                [s.ses[c] EXCEPT !.q = [i \in DOMAIN q |-> IF q[i].uid \in uids THEN [q[i] EXCEPT !.pid = pid(q[i].uid)] ELSE q[i]]]]]

\* ------------------------------------------------- invariants of the design
Outstanding(s, c) == {i \in DOMAIN s.ses[c].q : s.ses[c].q[i].st # "done" /\ s.ses[c].q[i].ls}
Inv(s) ==
  /\ \A c \in DOMAIN s.ses :
       LET x == s.ses[c] IN
       /\ x.own # 0 => s.con[x.own].live /\ s.con[x.own].c = c
       /\ x.own = 0 => x.se # 0 /\ (x.xat = -1 \/ s.now < x.xat) /\ (x.wat = -1 \/ s.now < x.wat)
       /\ (x.own # 0 /\ ~s.con[x.own].auto) => Cardinality(Outstanding(s, c)) <= s.con[x.own].rm
       /\ IsAuto(s, c) => x.q = <<>>
       /\ \A i, j \in DOMAIN x.q : (i # j /\ x.q[i].st # "done" /\ x.q[j].st # "done") =>
             x.q[i].uid < x.q[j].uid \/ x.q[j].uid < x.q[i].uid
       /\ \A i, j \in DOMAIN x.q : (i # j /\ x.q[i].st # "done" /\ x.q[j].st # "done" /\ x.q[i].pid # 0) => x.q[i].pid # x.q[j].pid
       /\ Len(x.q) <= s.cfg.qmax
       /\ \A a, b \in x.subs : (a.sh = b.sh /\ a.f = b.f) => a = b
       /\ \A a, b \in x.in2 : a.pid = b.pid => a = b
  /\ \A k \in Live(s) : s.con[k].c \in DOMAIN s.ses /\ s.ses[s.con[k].c].own = k
  /\ \A a, b \in s.ret : a.lv = b.lv => a = b
  /\ \A m \in s.ret : m.plen > 0 /\ m.retain = 1
=============================================================================
