--------------------------------- MODULE Gen ---------------------------------
(* Inputs for Broker: small alphabets for exhaustive checking, weighted random
   histories for simulation.  A profile selects what a property is about.    *)
EXTENDS Broker
CONSTANT Prof

FilterSet == {<<"a">>, <<"a","b">>, <<"+","b">>, <<"a","#">>, <<"#">>, <<"+">>}
TopicSet == {<<"a">>, <<"a","b">>, <<"b">>, <<"b","b">>}
Cfg0 == [min_keep_alive |-> 0, inflight_timeout |-> 1000000, hook |-> [enable_unsubscribe |-> TRUE]]
With(c, d) == [f \in DOMAIN c \cup DOMAIN d |-> IF f \in DOMAIN d THEN d[f] ELSE c[f]]
H(d) == [cfg |-> With(Cfg0, d)]
H0 == [cfg |-> Cfg0]

Base ==
  [nc |-> 3, ncon |-> 14, vers |-> <<5, 5, 5, 4, 3>>, auto |-> 50, cs |-> 50, se |-> {0, 5, 15, Never}, rm |-> {}, mp |-> {}, tam |-> {},
   filters |-> FilterSet, topics |-> TopicSet, free |-> FALSE, qos |-> {0, 1, 2}, subq |-> {0, 1, 2}, share |-> 0, opts |-> 0, sid |-> 0,
   multi |-> 20, ret |-> 0, empty |-> 0, rh |-> {0}, nl |-> 0, rap |-> 0, rap0 |-> 0, will |-> 0, wd |-> {0}, props |-> 0, exp |-> {}, alias |-> 0,
   pads |-> {0}, hold |-> 100, bad |-> 0, rc |-> 0, dse |-> 0, adv |-> {2000}, pids |-> 1..3, hdrs |-> {H0}, x |-> 0,
   w |-> << <<"connect", 6>>, <<"sub", 10>>, <<"unsub", 3>>, <<"pub", 24>>, <<"ack", 24>>, <<"end", 4>>, <<"ping", 1>> >>,
   \* exhaustive alphabet
   xver |-> {5}, xauto |-> {1}, xcs |-> {1}, xse |-> {0}, xrm |-> {}, xf |-> {<<"a">>, <<"#">>}, xt |-> {<<"a">>}, xq |-> {1}, xsq |-> {1}, xret |-> {0}, xsh |-> {""},
   xopt |-> {<<0, 0, 0>>}, xends |-> {"disc"}, xadv |-> {}, xwill |-> {}, xnc |-> 2, xdup |-> FALSE, xexp |-> {}, xpl |-> {}, xack |-> FALSE, xcon |-> 4, xsid |-> {}, xta |-> {}, xpad |-> {0}, xmp |-> {}, xdse |-> {},
   xi |-> {"pub", "connect", "adv", "sub", "puback", "pubcomp"}]

P ==
  CASE Prof = "route" ->
         With(Base, [nc |-> 4, auto |-> 100, cs |-> 100, free |-> TRUE, multi |-> 40, hdrs |-> {H0},
           w |-> << <<"connect", 8>>, <<"sub", 26>>, <<"unsub", 14>>, <<"pub", 40>>, <<"srv", 6>>, <<"end", 6>> >>,
           xnc |-> 2, xver |-> {4, 5}, xf |-> {<<"a">>, <<"a","b">>, <<"+","b">>, <<"a","#">>, <<"#">>, <<"$x","#">>}, xt |-> {<<"a">>, <<"a","b">>, <<"b">>},
           xq |-> {0}, xsq |-> {0}, xi |-> {"pub", "disc"}])
    [] Prof = "options" ->
         With(Base, [nc |-> 3, auto |-> 85, multi |-> 40, sid |-> 45, ret |-> 35, rap |-> 45, nl |-> 35, share |-> 15, rh |-> {2}, props |-> 15,
           hdrs |-> {H0, H([max_allowed_qos |-> 1])}, pids |-> 1..40,
           w |-> << <<"connect", 7>>, <<"sub", 26>>, <<"unsub", 6>>, <<"pub", 44>>, <<"srv", 3>>, <<"ack", 10>>, <<"end", 4>> >>,
           xnc |-> 2, xver |-> {4, 5}, xf |-> {<<"a">>, <<"+">>}, xq |-> {0, 2}, xsq |-> {0, 1}, xret |-> {0, 1}, xopt |-> {<<0, 0, 2>>, <<1, 0, 2>>, <<0, 1, 2>>},
           xsid |-> {3}, xi |-> {"pub"}])
    [] Prof = "shared" ->
         With(Base, [nc |-> 4, auto |-> 100, cs |-> 85, se |-> {0, 5}, share |-> 75, filters |-> {<<"a">>, <<"+">>, <<"a","#">>}, topics |-> {<<"a">>, <<"a","b">>}, multi |-> 30, sid |-> 20,
           hdrs |-> {H0, H([shared_subscription_mode |-> "HashClientId"]), H([shared_subscription_mode |-> "HashTopicName"])},
           w |-> << <<"connect", 10>>, <<"sub", 24>>, <<"unsub", 10>>, <<"pub", 40>>, <<"srv", 3>>, <<"end", 6>>, <<"adv", 3>> >>,
           xnc |-> 3, xver |-> {5}, xf |-> {<<"a">>, <<"#">>}, xsh |-> {"", "g"}, xq |-> {0, 1}, xsq |-> {1}, xcon |-> 4, xi |-> {"pub"}])
    [] Prof = "retain" ->
         With(Base, [nc |-> 3, auto |-> 85, ret |-> 60, empty |-> 20, rh |-> {0, 0, 1, 2}, nl |-> 20, rap |-> 40, share |-> 8, sid |-> 20, multi |-> 25, props |-> 15, free |-> FALSE,
           filters |-> FilterSet \cup {<<"+","#">>, <<"b","+">>}, pids |-> 1..40, will |-> 15, exp |-> {3, 5}, adv |-> {2000, 4000},
           w |-> << <<"connect", 8>>, <<"sub", 30>>, <<"unsub", 8>>, <<"pub", 36>>, <<"srv", 5>>, <<"ack", 8>>, <<"end", 5>>, <<"adv", 3>> >>,
           xnc |-> 2, xver |-> {4, 5}, xf |-> {<<"a">>, <<"+">>, <<"#">>}, xt |-> {<<"a">>, <<"a","b">>}, xq |-> {1}, xret |-> {0, 1}, xpl |-> {0}, xopt |-> {<<0, 0, 0>>, <<0, 1, 1>>, <<1, 0, 0>>},
           xi |-> {"sub"}])
    [] Prof = "queue" ->
         With(Base, [nc |-> 2, auto |-> 20, cs |-> 10, se |-> {100, Never}, rm |-> {1, 2, 3, 10}, qos |-> {1, 2, 2, 0}, subq |-> {1, 2}, bad |-> 18, rc |-> 12, pids |-> 1..40,
           filters |-> {<<"a">>, <<"#">>}, topics |-> {<<"a">>}, hdrs |-> {H0, H([max_inflight_client |-> 3])}, vers |-> <<5, 5, 4, 3>>, ret |-> 10,
           w |-> << <<"connect", 8>>, <<"sub", 9>>, <<"unsub", 1>>, <<"pub", 28>>, <<"ack", 42>>, <<"end", 7>>, <<"adv", 1>> >>,
           xnc |-> 1, xver |-> {4, 5}, xauto |-> {0}, xcs |-> {0}, xse |-> {99}, xrm |-> {2}, xf |-> {<<"a">>}, xq |-> {1, 2}, xsq |-> {2}, xends |-> {"cut"}, xack |-> TRUE,
           xi |-> {"connect", "puback", "pubrec", "pubcomp"}])
    [] Prof = "qos2in" ->
         With(Base, [nc |-> 2, auto |-> 30, cs |-> 15, se |-> {100}, pids |-> 1..4, qos |-> {2, 2, 1}, subq |-> {0, 2}, filters |-> {<<"a">>, <<"#">>}, topics |-> {<<"a">>, <<"b">>}, nl |-> 10,
           hdrs |-> {H0, H([max_inflight_server |-> 2])}, vers |-> <<5, 5, 4, 3>>, ret |-> 15, props |-> 10, bad |-> 10, alias |-> 15,
           w |-> << <<"connect", 8>>, <<"sub", 8>>, <<"pub", 24>>, <<"dup", 22>>, <<"rel", 22>>, <<"ack", 10>>, <<"end", 6>> >>,
           xnc |-> 1, xver |-> {4, 5}, xauto |-> {0}, xcs |-> {0, 1}, xse |-> {99}, xf |-> {<<"a">>}, xt |-> {<<"a">>, <<"b">>}, xret |-> {0, 1}, xq |-> {1, 2}, xsq |-> {0}, xends |-> {"cut", "disc"}, xdup |-> TRUE,
           xi |-> {"pub", "pubrel"}])
    [] Prof = "window" ->
         With(Base, [nc |-> 2, auto |-> 10, cs |-> 30, se |-> {100}, rm |-> {1, 2, 3, 5}, qos |-> {1, 2}, subq |-> {1, 2}, bad |-> 6, pids |-> 1..60,
           filters |-> {<<"a">>, <<"#">>}, topics |-> {<<"a">>}, hdrs |-> {H([max_inflight_client |-> 2]), H([max_inflight_client |-> 4, max_in_mem_pending_messages |-> 5])},
           vers |-> <<5, 5, 4>>, ret |-> 15, multi |-> 30,
           w |-> << <<"connect", 5>>, <<"sub", 8>>, <<"pub", 42>>, <<"ack", 36>>, <<"end", 3>>, <<"ping", 2>> >>,
           xnc |-> 1, xver |-> {5}, xauto |-> {0}, xcs |-> {0}, xse |-> {99}, xrm |-> {1, 2}, xf |-> {<<"a">>}, xq |-> {1, 2}, xsq |-> {2}, xends |-> {"cut"}, xack |-> TRUE,
           xi |-> {"pub", "puback", "pubrec", "pubcomp"}])
    [] Prof = "order" ->
         With(Base, [nc |-> 3, auto |-> 40, cs |-> 40, se |-> {100}, rm |-> {1, 2, 10}, qos |-> {0, 1, 2}, subq |-> {0, 1, 2}, pids |-> 1..80, ret |-> 5, multi |-> 20,
           filters |-> {<<"a">>, <<"#">>, <<"+">>}, topics |-> {<<"a">>, <<"b">>}, hdrs |-> {H0, H([max_inflight_client |-> 2])}, pads |-> {0, 0, 200, 3000},
           w |-> << <<"connect", 6>>, <<"sub", 8>>, <<"pub", 60>>, <<"ack", 26>>, <<"end", 2>> >>,
           xnc |-> 2, xver |-> {4, 5}, xauto |-> {0}, xcs |-> {0}, xse |-> {99}, xrm |-> {2}, xf |-> {<<"a">>}, xq |-> {0, 1}, xsq |-> {0, 1}, xack |-> TRUE, xi |-> {"pub", "puback"}])
    [] Prof = "resume" ->
         With(Base, [nc |-> 2, auto |-> 60, cs |-> 30, se |-> {0, 5, 100, Never}, rm |-> {}, multi |-> 30, sid |-> 25, rap |-> 25, nl |-> 15, ret |-> 15, share |-> 10, pids |-> 1..40, dse |-> 15,
           ncon |-> 20, props |-> 10, hdrs |-> {H0, H([max_in_mem_pending_messages |-> 3])},
           w |-> << <<"connect", 22>>, <<"sub", 16>>, <<"unsub", 6>>, <<"pub", 32>>, <<"ack", 10>>, <<"end", 18>>, <<"adv", 3>> >>,
           xnc |-> 1, xver |-> {3, 4, 5}, xauto |-> {0, 1}, xcs |-> {0, 1}, xse |-> {0, 99}, xf |-> {<<"a">>, <<"+">>}, xq |-> {0, 2}, xsq |-> {2}, xopt |-> {<<0, 0, 2>>, <<1, 0, 2>>}, xsid |-> {3}, xends |-> {"cut", "disc"}, xcon |-> 5,
           xi |-> {"connect"}])
    [] Prof = "expiry" ->
         With(Base, [nc |-> 3, auto |-> 80, cs |-> 25, se |-> {0, 1, 3, 5, 7, 15, Never}, multi |-> 20, dse |-> 45, ncon |-> 22, adv |-> {2000, 4000, 6000, 2000, 10000}, pids |-> 1..40,
           hdrs |-> {H0, [cfg |-> With(Cfg0, [max_session_expiry_interval |-> 5]), mse |-> 5]}, ret |-> 10, will |-> 10, wd |-> {0, 3}, share |-> 10,
           w |-> << <<"connect", 22>>, <<"sub", 12>>, <<"unsub", 3>>, <<"pub", 18>>, <<"ack", 4>>, <<"end", 20>>, <<"adv", 22>> >>,
           xnc |-> 2, xver |-> {4, 5}, xauto |-> {1}, xcs |-> {0, 1}, xse |-> {0, 3}, xf |-> {<<"a">>}, xq |-> {1}, xsq |-> {1}, xends |-> {"cut", "disc"}, xadv |-> {2000}, xcon |-> 5, xdse |-> {0, 3},
           xi |-> {"connect", "adv"}])
    [] Prof = "takeover" ->
         With(Base, [nc |-> 2, auto |-> 60, cs |-> 25, se |-> {0, 5, 100}, multi |-> 20, ncon |-> 24, vers |-> <<5, 5, 5, 4, 4, 3>>, will |-> 25, wd |-> {0, 0, 3}, pids |-> 1..6, rm |-> {2, 10},
           adv |-> {2000, 4000}, hdrs |-> {H0}, ret |-> 10, x |-> 55,
           w |-> << <<"connect", 26>>, <<"sub", 12>>, <<"pub", 26>>, <<"ack", 12>>, <<"dup", 4>>, <<"rel", 6>>, <<"end", 7>>, <<"adv", 6>> >>,
           xnc |-> 2, xver |-> {3, 4, 5}, xauto |-> {1}, xcs |-> {0, 1}, xse |-> {0, 5}, xf |-> {<<"a">>}, xq |-> {1}, xsq |-> {1}, xends |-> {"cut"}, xcon |-> 5, xi |-> {"connect"}])
    [] Prof = "will" ->
         With(Base, [nc |-> 3, auto |-> 85, cs |-> 30, se |-> {0, 3, 5, 9, Never}, multi |-> 20, ncon |-> 24, will |-> 75, wd |-> {0, 0, 1, 3, 5, 7}, dse |-> 25, rc |-> 30, props |-> 25, ret |-> 25, rap |-> 25,
           exp |-> {3, 9}, adv |-> {2000, 4000, 6000}, hdrs |-> {H0}, nl |-> 15, share |-> 10, pids |-> 1..40, x |-> 15, bad |-> 10,
           w |-> << <<"connect", 24>>, <<"sub", 18>>, <<"pub", 5>>, <<"end", 24>>, <<"viol", 4>>, <<"adv", 18>>, <<"ack", 5>> >>,
           xnc |-> 2, xver |-> {4, 5}, xauto |-> {1}, xcs |-> {0, 1}, xse |-> {0, 5}, xf |-> {<<"a">>}, xends |-> {"cut", "disc", "disc4"}, xwill |-> {0, 3, 7}, xadv |-> {4000}, xcon |-> 4, xq |-> {},
           xi |-> {"connect", "adv", "cut", "disc"}])
    [] Prof = "alias" ->
         With(Base, [nc |-> 2, auto |-> 85, cs |-> 50, se |-> {100}, alias |-> 75, tam |-> {0, 1, 2, 5}, bad |-> 8, topics |-> {<<"a">>, <<"b">>, <<"a","b">>, <<"c">>}, pids |-> 1..4, ret |-> 20, mp |-> {40, 400},
           hdrs |-> {H0, H([topic_alias_max |-> 2]), H([topic_alias_max |-> 0])}, vers |-> <<5, 5, 5, 4>>, pads |-> {0, 0, 9, 16, 20},
           w |-> << <<"connect", 10>>, <<"sub", 14>>, <<"pub", 52>>, <<"dup", 5>>, <<"rel", 6>>, <<"ack", 8>>, <<"end", 6>> >>,
           xnc |-> 1, xver |-> {5}, xf |-> {<<"#">>}, xq |-> {0}, xsq |-> {0}, xt |-> {<<"a">>, <<"b">>}, xta |-> {0, 1, 2, 3}, xi |-> {"pub"}])
    [] Prof = "limits" ->
         With(Base, [nc |-> 3, auto |-> 80, cs |-> 50, se |-> {0, 5, 50, Never}, mp |-> {30, 36, 44, 60}, rm |-> {0, 1, 2, 10}, pads |-> {0, 3, 9, 15, 21, 30, 120}, bad |-> 15, ret |-> 25, share |-> 15, sid |-> 25, will |-> 20,
           props |-> 20, alias |-> 10, tam |-> {0, 3}, pids |-> 1..40, dse |-> 10,
           hdrs |-> {H0, H([max_allowed_qos |-> 1, retain_available |-> FALSE]), H([max_allowed_qos |-> 0, wildcard_subscription_available |-> FALSE]),
                     H([shared_subscription_available |-> FALSE, subscription_id_available |-> FALSE]), H([max_packet_size_server |-> 60]),
                     [cfg |-> With(Cfg0, [max_session_expiry_interval |-> 9, min_keep_alive |-> 20, max_keep_alive |-> 100, topic_alias_max |-> 2, max_inflight_server |-> 2]), mse |-> 9],
                     H([max_inflight_server |-> 65535, topic_alias_max |-> 0, check_v310_client_id_length |-> TRUE])},
           w |-> << <<"connect", 18>>, <<"badcon", 6>>, <<"sub", 18>>, <<"pub", 44>>, <<"rel", 4>>, <<"ack", 8>>, <<"end", 6>> >>, ncon |-> 22,
           xnc |-> 1, xver |-> {4, 5}, xse |-> {0, 20, Never}, xmp |-> {30}, xf |-> {<<"a">>, <<"+">>}, xsh |-> {"", "g"}, xsid |-> {1}, xq |-> {0, 1, 2}, xsq |-> {0, 2}, xret |-> {0, 1}, xpad |-> {0, 17, 18, 19, 20, 60}, xdse |-> {0, 20},
           xi |-> {"sub", "pub", "connect", "disc"}])
    [] Prof = "counts" ->
         With(Base, [nc |-> 3, auto |-> 90, cs |-> 45, se |-> {0, 1, 3, 5, Never}, ncon |-> 34, will |-> 30, wd |-> {0, 1, 3}, dse |-> 25, x |-> 25, adv |-> {2000, 4000}, rm |-> {0, 10}, bad |-> 10, multi |-> 10,
           w |-> << <<"connect", 34>>, <<"badcon", 10>>, <<"sub", 6>>, <<"pub", 4>>, <<"end", 26>>, <<"viol", 5>>, <<"adv", 10>>, <<"stat", 2>> >>,
           xnc |-> 2, xver |-> {3, 4, 5}, xauto |-> {1}, xcs |-> {0, 1}, xse |-> {0, 3}, xf |-> {}, xq |-> {}, xends |-> {"cut", "disc"}, xadv |-> {2000}, xcon |-> 5, xi |-> {"connect", "adv", "cut", "disc"}])
    [] Prof = "msgexp" ->
         With(Base, [nc |-> 3, auto |-> 40, cs |-> 20, se |-> {1000001, Never}, exp |-> {1, 2, 3, 4, 6, 9}, ret |-> 40, rm |-> {1, 2, 10}, qos |-> {0, 1, 2}, subq |-> {1, 2}, rh |-> {0}, will |-> 15, wd |-> {0}, pids |-> 1..60,
           adv |-> {2000, 1000, 3000}, hdrs |-> {H0, H([max_in_mem_pending_messages |-> 4])}, filters |-> {<<"a">>, <<"#">>, <<"+">>}, topics |-> {<<"a">>, <<"b">>},
           w |-> << <<"connect", 12>>, <<"sub", 14>>, <<"pub", 34>>, <<"srv", 2>>, <<"ack", 22>>, <<"end", 10>>, <<"adv", 18>> >>,
           xnc |-> 1, xver |-> {4, 5}, xauto |-> {0, 1}, xcs |-> {0}, xse |-> {99}, xrm |-> {1}, xf |-> {<<"a">>}, xq |-> {1}, xsq |-> {1}, xret |-> {0, 1}, xends |-> {"cut"}, xadv |-> {2000}, xexp |-> {3}, xack |-> TRUE, xcon |-> 3,
           xi |-> {"connect", "sub", "puback"}])
    [] Prof = "content" ->
         With(Base, [nc |-> 3, auto |-> 100, cs |-> 40, se |-> {100}, props |-> 75, ret |-> 25, will |-> 15, rm |-> {2, 10}, sid |-> 15, pads |-> {0, 1, 40, 118, 120, 122, 130, 2000, 17000}, multi |-> 25, pids |-> 1..60, x |-> 0,
           empty |-> 6, hdrs |-> {H0}, alias |-> 15, tam |-> {0, 2}, exp |-> {50}, bad |-> 0, mp |-> {}, free |-> TRUE,
           w |-> << <<"connect", 10>>, <<"sub", 18>>, <<"pub", 52>>, <<"hex", 12>>, <<"ack", 10>>, <<"end", 6>>, <<"adv", 1>> >>,
           xnc |-> 2, xver |-> {4, 5}, xq |-> {0, 1, 2}, xf |-> {<<"#">>}, xsq |-> {0, 1, 2}, xret |-> {0, 1}, xpad |-> {0, 120}, xi |-> {"pub", "sub"}])
    [] OTHER ->
         With(Base, [nc |-> 3, auto |-> 60, cs |-> 40, se |-> {0, 5, 15, Never}, rm |-> {2, 10}, tam |-> {0, 2}, alias |-> 15, ret |-> 25, empty |-> 10, rh |-> {0, 1, 2}, nl |-> 15, rap |-> 30, share |-> 15, sid |-> 25, multi |-> 30, props |-> 15,
           will |-> 30, wd |-> {0, 0, 3, 7}, dse |-> 15, rc |-> 15, bad |-> 6, exp |-> {3, 9}, adv |-> {2000, 4000}, pids |-> 1..5, x |-> 15, ncon |-> 24, pads |-> {0, 0, 0, 120}, free |-> FALSE,
           hdrs |-> {H0, H([max_inflight_client |-> 2]), H([max_in_mem_pending_messages |-> 3]), H([max_allowed_qos |-> 1]), H([shared_subscription_mode |-> "HashTopicName"])},
           w |-> << <<"connect", 12>>, <<"badcon", 2>>, <<"sub", 16>>, <<"unsub", 5>>, <<"pub", 34>>, <<"dup", 3>>, <<"rel", 5>>, <<"srv", 3>>, <<"hex", 2>>, <<"ack", 16>>, <<"end", 9>>, <<"viol", 1>>, <<"adv", 6>>, <<"ping", 1>> >>])

Headers == P.hdrs
RandHeaders == P.hdrs

\* ------------------------------------------------------------ random inputs
C == {"c" \o ToString(i) : i \in 1..P.nc}
LiveOf(s, c) == IF c \in DOMAIN s.ses THEN s.ses[c].own ELSE 0
LiveK(s) == Live(s)
V5(s, k) == s.con[k].v = 5
Maybe(n, f, S, z) == IF S # {} /\ Chance(n) THEN f :> Pick(S) ELSE <<>>
RLevel(z) == IF Chance(75) THEN Pick({"a", "b"}) ELSE Pick({"", "c", "sport", "$x"})
RTopic(z) == IF ~P.free THEN Pick(P.topics)
             ELSE LET n == Pick(1..4) t == [i \in 1..n |-> RLevel(i)] IN IF t = <<"">> THEN <<"a">> ELSE IF t[1] = "$x" THEN <<"a">> \o Tail(t) ELSE t
RSrvTopic(z) == IF Chance(40) THEN Pick({<<"$x">>, <<"$x", "a">>}) ELSE RTopic(z)
RFilter(z) == IF ~P.free THEN Pick(P.filters)
              ELSE LET n == Pick(1..4)
                       m == [i \in 1..n |-> IF Chance(25) THEN "+" ELSE RLevel(i)]
                       f == IF Chance(25) THEN SubSeq(m, 1, n-1) \o <<"#">> ELSE m
                   IN IF f = <<"">> THEN <<"+">> ELSE f

RProps(s, z) ==
  IF ~Chance(P.props) THEN <<>>
  ELSE Maybe(40, "fmt", {0, 1}, 1) @@ Maybe(40, "ct", {"t", "text/x"}, 2) @@ Maybe(40, "rt", {"r/1", "r"}, 3) @@ Maybe(40, "cd", {"cd1", "k"}, 4)
       @@ Maybe(50, "up", {<<<<"a", "1">>>>, <<<<"a", "1">>, <<"b", "">>, <<"a", "2">>>>}, 5)
RWProps(z) ==
  IF ~Chance(P.props) THEN <<>>
  ELSE Maybe(40, "wfmt", {0, 1}, 1) @@ Maybe(40, "wct", {"t", "text/x"}, 2) @@ Maybe(40, "wrt", {"r/1"}, 3) @@ Maybe(40, "wcd", {"cd1"}, 4)
       @@ Maybe(50, "wup", {<<<<"a", "1">>>>, <<<<"a", "1">>, <<"b", "">>, <<"a", "2">>>>}, 5)

RWill(s, v, z) ==
  IF ~Chance(P.will) THEN <<>>
  ELSE ("wlv" :> RTopic(1)) @@ ("wpl" :> s.np) @@ ("wq" :> Pick(0..2)) @@ ("wr" :> IF Chance(P.ret) THEN 1 ELSE 0)
       @@ (IF v = 5 THEN ("wd" :> Pick(P.wd)) @@ Maybe(25, "wexp", P.exp, 1) @@ RWProps(1) ELSE <<>>)
OConnect(s, c, z) ==
  LET v == P.vers[Pick(1..Len(P.vers))] IN
  [t |-> "connect", k |-> Len(s.con) + 1, cid |-> c, v |-> v, cs |-> IF Chance(P.cs) THEN 1 ELSE 0, ka |-> 0, auto |-> IF Chance(P.auto) THEN 1 ELSE 0]
  @@ RWill(s, v, 1)
  @@ (IF v = 5 THEN Maybe(85, "se", P.se, 1) @@ Maybe(75, "rm", P.rm, 2) @@ Maybe(60, "mp", P.mp, 3) @@ Maybe(80, "tam", P.tam, 4) ELSE <<>>)
OBadCon(s, z) ==
  LET k == Len(s.con) + 1
      b == [t |-> "connect", k |-> k, cid |-> Pick(C), v |-> 5, cs |-> 1, ka |-> 0, auto |-> 1] IN
  Pick({b @@ ("rm" :> 0), b @@ ("mp" :> 0), b @@ ("am" :> "X") @@ ("ad" :> "y"), b @@ ("ad" :> "y"), b @@ ("wlv" :> <<"$x">>) @@ ("wpl" :> s.np),
        b @@ ("wlv" :> <<"a">>) @@ ("wpl" :> s.np) @@ ("wr" :> 1), b @@ ("wlv" :> <<"a">>) @@ ("wpl" :> s.np) @@ ("wq" :> 2),
        [b EXCEPT !.v = 4, !.cid = "", !.cs = 0], [b EXCEPT !.v = 4, !.cid = ""], [b EXCEPT !.v = 3, !.cid = ""], [b EXCEPT !.cid = ""],
        [b EXCEPT !.v = 3, !.cid = "abcdefghijklmnopqrstuvwxyz"], [b EXCEPT !.ka = 50], [b EXCEPT !.ka = 10000],
        [b EXCEPT !.v = 4] @@ ("wlv" :> <<"$x">>) @@ ("wpl" :> s.np)})
FreeC(s) == {c \in C : LiveOf(s, c) = 0}
RConnect(s, z) == LET F == FreeC(s) IN IF F = {} \/ Chance(P.x) THEN OConnect(s, Pick(C), z) ELSE OConnect(s, Pick(F), z)

RSubItem(s, k, z) ==
  LET mine == s.ses[s.con[k].c].subs
      sh == IF V5(s, k) /\ Chance(P.share) THEN Pick({"g", "h"}) ELSE ""
      old == IF mine # {} /\ Chance(35) THEN Pick(mine) ELSE [sh |-> "", f |-> <<>>]
      f == IF old.f # <<>> THEN old.f ELSE RFilter(z)
      g == IF old.f # <<>> THEN old.sh ELSE sh
      b == [f |-> f, q |-> Pick(P.subq)]
      b1 == IF g # "" THEN b @@ ("sh" :> g) ELSE b
  IN IF ~V5(s, k) THEN b1
     ELSE b1 @@ ("rh" :> Pick(P.rh)) @@ (IF Chance(P.rap) THEN "rap" :> 1 ELSE <<>>) @@ (IF g = "" /\ Chance(P.nl) THEN "nl" :> 1 ELSE <<>>)
RN(z) == IF Chance(P.multi) THEN Pick({2, 3}) ELSE 1
RSub(s, k, z) ==
  [t |-> "sub", k |-> k, pid |-> Pick(1..9), fs |-> [i \in 1..RN(1) |-> RSubItem(s, k, i)]]
  @@ (IF V5(s, k) /\ Chance(P.sid) THEN "sid" :> (IF Chance(P.bad) THEN 0 ELSE Pick({1, 2, 127, 128, 20000})) ELSE <<>>)
RUnItem(s, k, z) ==
  LET mine == s.ses[s.con[k].c].subs IN
  IF mine # {} /\ Chance(75) THEN LET x == Pick(mine) IN IF x.sh = "" THEN [f |-> x.f] ELSE [f |-> x.f, sh |-> x.sh]
  ELSE IF V5(s, k) /\ Chance(P.share) THEN [f |-> RFilter(z), sh |-> "g"] ELSE [f |-> RFilter(z)]
RUnsub(s, k, z) == [t |-> "unsub", k |-> k, pid |-> Pick(1..9), fs |-> [i \in 1..RN(1) |-> RUnItem(s, k, i)]]

RPub0(s, k, z) ==
  LET q == Pick(P.qos)
      pid == IF q = 2 THEN Pick(P.pids) ELSE IF q = 1 THEN Pick(1..60000) ELSE 0
      r == IF Chance(P.ret) THEN 1 ELSE 0
      pl == IF r = 1 /\ Chance(P.empty) THEN 0 ELSE IF r = 0 /\ Chance(P.empty \div 4) THEN 0 ELSE s.np
      b == [t |-> "pub", k |-> k, lv |-> RTopic(z), qos |-> q, pid |-> pid, retain |-> r, pl |-> pl, pad |-> IF pl = 0 THEN 0 ELSE Pick(P.pads)]
      a == s.con[k].al
      ta == Pick(1..3)
  IN IF ~V5(s, k) THEN b
     ELSE LET p == b @@ RProps(s, 1) @@ Maybe(60, "exp", P.exp, 1) IN
          IF ~Chance(P.alias) THEN p
          ELSE IF Chance(P.bad) THEN [p EXCEPT !.lv = IF Chance(50) THEN <<"">> ELSE @] @@ ("ta" :> Pick({0, 3, 65535}))
          ELSE IF a # {} /\ Chance(60) THEN [p EXCEPT !.lv = <<"">>] @@ ("ta" :> (Pick(a)).a)
          ELSE p @@ ("ta" :> ta)
(* do not reuse an incoming identifier by accident when that would end the connection *)
RPub(s, k, z) ==
  LET p == RPub0(s, k, z)
      used == {x.pid : x \in s.ses[s.con[k].c].in2}
      free == P.pids \ used
  IN IF p.qos = 2 /\ p.pid \in used /\ free # {} /\ ~Chance(P.bad) THEN [p EXCEPT !.pid = Pick(free)] ELSE p
RHex(s, k, z) ==
  [t |-> "pub", k |-> k, lv |-> RTopic(z), qos |-> Pick({0, 1}), pid |-> Pick(1..60000), retain |-> 0,
   plhex |-> Pick({"00", "ff", "e282ac00", "0a0d", "c0c1feff", "30820000", "7b22613a317d", "20", "efbbbf41"})]
RDup(s, k, z) ==
  LET X == {x \in s.ses[s.con[k].c].in2 : x.fp.hex = ""} IN
  IF X = {} THEN RPub(s, k, z)
  ELSE LET x == Pick(X) m == x.fp
           b == [t |-> "pub", k |-> k, lv |-> m.lv, qos |-> 2, pid |-> x.pid, retain |-> m.retain, pl |-> m.pl,
                 pad |-> IF m.pl = 0 THEN 0 ELSE m.plen - 1 - Digits(m.pl), dup |-> 1]
           b2 == IF ~V5(s, k) THEN b
                 ELSE b @@ (IF m.fmt >= 0 THEN "fmt" :> m.fmt ELSE <<>>) @@ (IF m.ct # "" THEN "ct" :> m.ct ELSE <<>>) @@ (IF m.rt # "" THEN "rt" :> m.rt ELSE <<>>)
                      @@ (IF m.cd # "" THEN "cd" :> m.cd ELSE <<>>) @@ (IF m.up # <<>> THEN "up" :> m.up ELSE <<>>) @@ (IF m.exp >= 0 THEN "exp" :> m.exp ELSE <<>>)
       IN IF Chance(80) THEN b2 ELSE IF Chance(50) THEN [b2 EXCEPT !.pl = s.np, !.pad = 0] ELSE IF Chance(50) THEN [b2 EXCEPT !.dup = 0] ELSE [b2 EXCEPT !.retain = 1 - @]
RRel(s, k, z) ==
  LET X == {x.pid : x \in s.ses[s.con[k].c].in2} IN
  [t |-> "pubrel", k |-> k, pid |-> IF X # {} /\ ~Chance(Max2(P.bad, 4)) THEN Pick(X) ELSE IF V5(s, k) \/ Chance(20) THEN Pick(P.pids) ELSE IF X # {} THEN Pick(X) ELSE 1]

Acked(s, k) == {i \in InWin(s, k) : LET y == s.ses[s.con[k].c].q[i] IN y.st # "done" /\ y.ls}
AckKs(s) == {k \in LiveK(s) : ~s.con[k].auto /\ Acked(s, k) # {}}
RAck(s, k, z) ==
  LET q == s.ses[s.con[k].c].q
      I == Acked(s, k)
      i == IF Chance(60) THEN SetMin(I) ELSE Pick(I)
      ok == IF q[i].q = 1 THEN "puback" ELSE IF q[i].st = "new" THEN "pubrec" ELSE "pubcomp"
      t == IF Chance(P.bad) THEN Pick({"puback", "pubrec", "pubcomp"}) ELSE ok
      b == [t |-> t, k |-> k, pl |-> q[i].m.pl]
  IN IF Chance(P.bad \div 4) THEN [t |-> t, k |-> k, pid |-> Pick({60000, 65535})]
     ELSE IF V5(s, k) /\ t \in {"puback", "pubrec"} /\ Chance(P.rc) THEN b @@ ("rc" :> Pick({16, 128, 135, 151})) ELSE b

REnd(s, k, z) ==
  LET d == Pick({"disc", "disc", "cut", "reset"}) IN
  IF d # "disc" THEN [t |-> d, k |-> k]
  ELSE [t |-> "disc", k |-> k, rc |-> IF V5(s, k) /\ Chance(P.rc) THEN Pick({4, 128, 130}) ELSE 0]
       @@ (IF V5(s, k) /\ Chance(P.dse) THEN "se" :> Pick(P.se) ELSE <<>>)
RViol(s, k, z) == IF Chance(50) THEN [t |-> "pub", k |-> k, lv |-> <<"$x">>, qos |-> 0, pid |-> 0, pl |-> s.np]
                  ELSE [t |-> "pub", k |-> k, lv |-> <<"a">>, qos |-> 0, dup |-> 1, pid |-> 0, pl |-> s.np]

Usable(s, n) ==
  CASE n \in {"connect", "badcon"} -> Len(s.con) < P.ncon
    [] n = "ack" -> AckKs(s) # {}
    [] n \in {"adv", "stat"} -> TRUE
    [] OTHER -> LiveK(s) # {}
RECURSIVE WSum(_, _)
WSum(w, i) == IF i = 0 THEN 0 ELSE w[i][2] + WSum(w, i-1)
RECURSIVE WPick(_, _, _)
WPick(w, n, i) == IF i = Len(w) \/ n <= w[i][2] THEN w[i][1] ELSE WPick(w, n - w[i][2], i+1)
RandOp(s) ==
  LET w == SelectSeq(P.w, LAMBDA y : Usable(s, y[1]))
      few == Cardinality(LiveK(s)) < 2 /\ Len(s.con) < P.ncon
      n == IF LiveK(s) = {} /\ Len(s.con) < P.ncon THEN (IF Chance(80) THEN "connect" ELSE "adv")
           ELSE IF few /\ Chance(25) THEN "connect"
           ELSE IF w = <<>> THEN "stat" ELSE WPick(w, Pick(1..WSum(w, Len(w))), 1)
      k == IF LiveK(s) = {} THEN 0 ELSE Pick(LiveK(s))
  IN CASE n = "connect" -> RConnect(s, 1)
       [] n = "badcon" -> OBadCon(s, 1)
       [] n = "sub" -> RSub(s, k, 1)
       [] n = "unsub" -> RUnsub(s, k, 1)
       [] n = "pub" -> RPub(s, k, 1)
       [] n = "hex" -> RHex(s, k, 1)
       [] n = "dup" -> RDup(s, k, 1)
       [] n = "rel" -> RRel(s, k, 1)
       [] n = "srv" -> [t |-> "srvpub", k |-> k, lv |-> RSrvTopic(1), qos |-> Pick(P.qos), retain |-> IF Chance(P.ret) THEN 1 ELSE 0, pl |-> s.np]
       [] n = "ack" -> RAck(s, Pick(AckKs(s)), 1)
       [] n = "end" -> REnd(s, k, 1)
       [] n = "viol" -> RViol(s, k, 1)
       [] n = "ping" -> [t |-> "ping", k |-> k]
       [] n = "adv" -> [t |-> "adv", ms |-> Pick(P.adv)]
       [] OTHER -> [t |-> "stat"]

\* ------------------------------------------------------- exhaustive inputs
XC == {"c" \o ToString(i) : i \in 1..P.xnc}
XConnects(s) ==
  IF Len(s.con) >= P.xcon THEN {} ELSE
  LET b(c, v, cs, a) == [t |-> "connect", k |-> Len(s.con) + 1, cid |-> c, v |-> v, cs |-> cs, ka |-> 0, auto |-> a]
      ext(o) == IF o.v # 5 THEN {o} ELSE
                LET A == {o @@ ("se" :> x) : x \in P.xse} IN
                (IF P.xrm = {} THEN A ELSE {o2 @@ ("rm" :> x) : o2 \in A, x \in P.xrm}) \cup {o2 @@ ("mp" :> x) : o2 \in A, x \in P.xmp}
      wl(o) == {o} \cup {o @@ ("wlv" :> <<"a">>) @@ ("wpl" :> s.np) @@ (IF o.v = 5 THEN "wd" :> d ELSE <<>>) : d \in P.xwill}
  IN UNION {UNION {wl(o) : o \in ext(b(c, v, cs, a))} : c \in XC, v \in P.xver, cs \in P.xcs, a \in P.xauto}
XPub(s, k) ==
  LET b(lv, q, r, pl) == [t |-> "pub", k |-> k, lv |-> lv, qos |-> q, pid |-> IF q = 0 THEN 0 ELSE IF P.xdup THEN 1 ELSE 1 + (s.np % 60000), retain |-> r, pl |-> pl]
      A == {b(lv, q, r, s.np) : lv \in P.xt, q \in P.xq, r \in P.xret} \cup {b(lv, q, 1, pl) : lv \in P.xt, q \in P.xq, pl \in P.xpl}
      used == {x \in s.ses[s.con[k].c].in2 : TRUE}
      al == IF V5(s, k) THEN UNION {{a @@ ("ta" :> x), [a EXCEPT !.lv = <<"">>] @@ ("ta" :> x)} : a \in A, x \in P.xta} ELSE {}
  IN {a @@ ("pad" :> x) : a \in A, x \in P.xpad} \cup al \cup (IF V5(s, k) THEN {a @@ ("exp" :> x) : a \in A, x \in P.xexp} ELSE {})
     \cup (IF P.xdup THEN {[b(x.fp.lv, 2, x.fp.retain, x.fp.pl) EXCEPT !.pid = x.pid] @@ ("dup" :> d) : x \in used, d \in {0, 1}}
                          \cup {[t |-> "pubrel", k |-> k, pid |-> 1]} ELSE {})
XSub(s, k) ==
  LET it(f, q, o, g) == LET i0 == [f |-> f, q |-> q]
                            i1 == IF g # "" THEN i0 @@ ("sh" :> g) ELSE i0
                        IN IF V5(s, k) THEN i1 @@ ("rap" :> o[1]) @@ ("nl" :> o[2]) @@ ("rh" :> o[3]) ELSE i1
      b(i) == [t |-> "sub", k |-> k, pid |-> 1, fs |-> <<i>>]
      A == {b(it(f, q, o, g)) : f \in P.xf, q \in P.xsq, o \in IF V5(s, k) THEN P.xopt ELSE {<<0, 0, 0>>}, g \in IF V5(s, k) THEN P.xsh ELSE {""}}
  IN A \cup (IF V5(s, k) THEN {a @@ ("sid" :> x) : a \in A, x \in P.xsid} ELSE {})
XUnsub(s, k) == {[t |-> "unsub", k |-> k, pid |-> 1, fs |-> <<IF x.sh = "" THEN [f |-> x.f] ELSE [f |-> x.f, sh |-> x.sh]>>] : x \in s.ses[s.con[k].c].subs}
XAck(s, k) ==
  IF ~P.xack \/ s.con[k].auto THEN {}
  ELSE {[t |-> t, k |-> k, pl |-> s.ses[s.con[k].c].q[i].m.pl] : t \in {"puback", "pubrec", "pubcomp"}, i \in Acked(s, k)}
XEnd(s, k) == (IF V5(s, k) THEN {[t |-> "disc", k |-> k, rc |-> 0, se |-> x] : x \in P.xdse} ELSE {}) \cup {IF e = "disc" THEN [t |-> "disc", k |-> k, rc |-> 0] ELSE IF e = "disc4" THEN [t |-> "disc", k |-> k, rc |-> 4] ELSE [t |-> e, k |-> k] : e \in P.xends}
Ops(s) == XConnects(s) \cup UNION {XPub(s, k) \cup XSub(s, k) \cup XUnsub(s, k) \cup XAck(s, k) \cup XEnd(s, k) : k \in Live(s)}
          \cup {[t |-> "adv", ms |-> x] : x \in P.xadv}

Interesting(s, s2, op) == op.t \in P.xi
(* exhaustive exploration does not distinguish the numbers of messages and connections *)
QView(q) == [i \in DOMAIN q |-> [lv |-> q[i].m.lv, q |-> q[i].q, st |-> q[i].st, ls |-> q[i].ls, dup |-> q[i].dup, r |-> q[i].r, ids |-> q[i].ids]]
View(s) ==
  <<[c \in DOMAIN s.ses |->
      LET x == s.ses[c] IN
      <<x.v, x.se, x.subs, QView(x.q), {[pid |-> y.pid, lv |-> y.fp.lv] : y \in x.in2}, x.will.wd, IF x.wat < 0 THEN -1 ELSE x.wat - s.now,
        IF x.xat < 0 THEN -1 ELSE x.xat - s.now, IF x.own = 0 THEN <<>> ELSE <<s.con[x.own].auto, s.con[x.own].rm, s.con[x.own].al>>>>],
    {<<m.lv, m.q, m.from, m.v, IF m.exp < 0 THEN -1 ELSE m.exp - (s.now - m.at)>> : m \in s.ret}, Len(s.con)>>
=============================================================================
