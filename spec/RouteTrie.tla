------------------------------ MODULE RouteTrie ------------------------------
(* Design model of the subscription index: a tree of filter levels with pruning of empty
   branches, checked against the declarative meaning of a subscription set.  Clients are
   subscribed in two ways, alone ("plain") or as members of one shared group, exactly the
   two tables a tree node carries. *)
EXTENDS Mqtt
CONSTANTS Filters, Topics, Cl
VARIABLES tree,   \* path (sequence of levels) -> [p: plain clients, g: group members]
          subs    \* the meaning: set of <<filter, client, kind>>
vars == <<tree, subs>>

Empty == [p |-> {}, g |-> {}]
Bare(n) == n.p = {} /\ n.g = {}
Kids(T, path) == {q \in DOMAIN T : Len(q) = Len(path) + 1 /\ SubSeq(q, 1, Len(path)) = path}
Prefixes(f) == {SubSeq(f, 1, i) : i \in 1..Len(f)}
Put(T, f, c, kind) ==
  LET T2 == [q \in DOMAIN T \cup Prefixes(f) |-> IF q \in DOMAIN T THEN T[q] ELSE Empty]
  IN [T2 EXCEPT ![f] = IF kind = "p" THEN [@ EXCEPT !.p = @ \cup {c}] ELSE [@ EXCEPT !.g = @ \cup {c}]]
Cut(T, q) == [x \in DOMAIN T \ {q} |-> T[x]]
(* remove from the leaf, then walk up while the node just handled was dropped *)
RECURSIVE Prune(_, _)
Prune(T, q) == IF q = <<>> \/ q \notin DOMAIN T \/ ~Bare(T[q]) \/ Kids(T, q) # {} THEN T
               ELSE Prune(Cut(T, q), SubSeq(q, 1, Len(q) - 1))
Del(T, f, c, kind) ==
  IF f \notin DOMAIN T THEN T
  ELSE Prune([T EXCEPT ![f] = IF kind = "p" THEN [@ EXCEPT !.p = @ \ {c}] ELSE [@ EXCEPT !.g = @ \ {c}]], f)

(* the walk of the tree for a topic: set of node paths reached *)
RECURSIVE Walk(_, _, _, _)
Walk(T, q, t, j) ==      \* q is an existing node; levels t[j..] are still to be consumed
  IF q[Len(q)] = "#" THEN {q}
  ELSE IF j <= Len(t)
       THEN UNION {Walk(T, Append(q, x), t, j+1) : x \in {y \in {t[j], "#", "+"} : Append(q, y) \in DOMAIN T}}
       ELSE {q} \cup {r \in {Append(q, "#")} : r \in DOMAIN T}
Roots(T, t) == {y \in (IF t[1] \in DollarLevels THEN {t[1]} ELSE {t[1], "#", "+"}) : <<y>> \in DOMAIN T}
Found(T, t) == UNION {Walk(T, <<y>>, t, 2) : y \in Roots(T, t)}

Init == tree = <<>> /\ subs = {}
Subscribe(f, c, k) == tree' = Put(tree, f, c, k) /\ subs' = subs \cup {<<f, c, k>>}
Unsubscribe(f, c, k) == tree' = Del(tree, f, c, k) /\ subs' = subs \ {<<f, c, k>>}
Next == \E f \in Filters, c \in Cl, k \in {"p", "g"} : Subscribe(f, c, k) \/ Unsubscribe(f, c, k)
Spec == Init /\ [][Next]_vars

MeansSame == \A t \in Topics : \A c \in Cl :
   /\ ({q \in Found(tree, t) : c \in tree[q].p} = {f \in Filters : TopicMatch(f, t) /\ <<f, c, "p">> \in subs})
   /\ ({q \in Found(tree, t) : c \in tree[q].g} = {f \in Filters : TopicMatch(f, t) /\ <<f, c, "g">> \in subs})
NoGarbage == \A q \in DOMAIN tree : Bare(tree[q]) => Kids(tree, q) # {}
CONSTANT MaxSubs
Bound == Cardinality(subs) <= MaxSubs
=============================================================================
