------------------------------- MODULE MCReg -------------------------------
(* Small registries, explored completely: every history of at most MaxLen steps over a pool of
   instances, with the laws that make the policy one of versions and not of order.  *)
EXTENDS HugrReg, TLC
Pool == << [n |-> "a", v |-> 1, ok |-> TRUE], [n |-> "a", v |-> 2, ok |-> TRUE], [n |-> "a", v |-> 2, ok |-> FALSE],
           [n |-> "b", v |-> 1, ok |-> TRUE], [n |-> "b", v |-> 3, ok |-> TRUE] >>
MaxLen == 6
VARIABLES R, S, updates, hist     \* the registry, the same fed through whole lists, the updates so far
vars == <<R, S, updates, hist>>
Init == R = None /\ S = None /\ updates = <<>> /\ hist = 0
Upd(i) == /\ R' = Update(Pool, R, i) /\ updates' = updates \o <<i>> /\ S' = UpdateAll(Pool, None, updates')
Reg(i) == /\ R' = Register(Pool, R, i) /\ UNCHANGED <<updates, S>>
Rem(id) == /\ R' = Drop(R, id) /\ UNCHANGED <<updates, S>>
Next == hist < MaxLen /\ hist' = hist + 1 /\ (\E i \in DOMAIN Pool : Upd(i) \/ Reg(i) \/ Rem(Pool[i].n))
(* what a registry holds is an instance of its own identifier *)
TypeOK == \A id \in DOMAIN R : R[id] \in DOMAIN Pool /\ Pool[R[id]].n = id
(* after updates alone: the highest version that came by, the first of those with it *)
Of(id) == {k \in DOMAIN updates : Pool[updates[k]].n = id}
Policy == /\ DOMAIN S = {Pool[updates[k]].n : k \in DOMAIN updates}
          /\ \A id \in DOMAIN S : LET K == Of(id)
                                      m == CHOOSE v \in {Pool[updates[k]].v : k \in K} : \A k \in K : Pool[updates[k]].v <= v
                                      T == {k \in K : Pool[updates[k]].v = m}
                                  IN S[id] = updates[CHOOSE k \in T : \A j \in T : k <= j]
(* the versions do not depend on the order; nothing is lost by giving a list again *)
Rev(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]
Versions(Q) == [id \in DOMAIN Q |-> Pool[Q[id]].v]
Orderless == /\ Versions(UpdateAll(Pool, None, Rev(updates))) = Versions(S)
             /\ UpdateAll(Pool, S, updates) = S
(* a refused registration changes nothing, one that is not refused is there *)
Refusal == [][\A i \in DOMAIN Pool : Reg(i) => IF RegisterAnswer(Pool, R, i)[1] = "there" THEN R' = R ELSE R'[Pool[i].n] = i]_vars
(* versions go up except by removal *)
Rising == [][\A i \in DOMAIN Pool : (Upd(i) \/ Reg(i)) => \A id \in DOMAIN R : Pool[R'[id]].v >= Pool[R[id]].v]_vars
=============================================================================
