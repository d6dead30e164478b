----------------------------- MODULE HugrGraph -----------------------------
(* The program graph and the public operations that edit it.                 *)
(* A graph is a record                                                       *)
(*   N     set of nodes            op    [N -> operation]                    *)
(*   par   [N -> N or NoNode]      kids  [N -> sequence of nodes]            *)
(*   ni,no [N -> Nat]              md    [N -> [key -> value]]               *)
(*   E     bag of edges <<src, srcPort, dst, dstPort>>                       *)
(*   root, entry                                                             *)
EXTENDS HugrOps, TLC, Bags, FiniteSetsExt, Functions

NoNode == -1
Fn0 == [x \in {} |-> 0]

Upd(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
KeepE(B, P(_)) == [e \in {x \in DOMAIN B : P(x)} |-> B[e]]
(* renumber the edges of a bag *)
MapE(B, F(_)) ==
  LET img == {F(e) : e \in DOMAIN B}
  IN IF Cardinality(img) = Cardinality(DOMAIN B)
     THEN LET inv == [i \in img |-> CHOOSE e \in DOMAIN B : F(e) = i] IN [i \in img |-> B[inv[i]]]
     ELSE [i \in img |-> FoldSet(LAMBDA e, acc : acc + B[e], 0, {e \in DOMAIN B : F(e) = i})]
Del(s, x) == SelectSeq(s, LAMBDA y : y # x)
PosOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
InsBefore(s, x, y) == LET p == PosOf(s, x) IN SubSeq(s, 1, p - 1) \o <<y>> \o SubSeq(s, p, Len(s))
InsAfter(s, x, y)  == LET p == PosOf(s, x) IN SubSeq(s, 1, p) \o <<y>> \o SubSeq(s, p + 1, Len(s))

(* --- structural invariant of the state: what every reachable graph satisfies --- *)
GraphOK(g) ==
  /\ g.root \in g.N /\ g.entry \in g.N
  /\ \A n \in g.N : g.par[n] # NoNode => g.par[n] \in g.N /\ \E i \in DOMAIN g.kids[g.par[n]] : g.kids[g.par[n]][i] = n
  /\ \A n \in g.N : \A i \in DOMAIN g.kids[n] : g.kids[n][i] \in g.N /\ g.par[g.kids[n][i]] = n
  /\ \A n \in g.N : Cardinality(Range(g.kids[n])) = Len(g.kids[n])
  /\ \A e \in DOMAIN g.E : e[1] \in g.N /\ e[3] \in g.N /\ e[2] < g.no[e[1]] /\ e[4] < g.ni[e[3]]
  /\ g.par[g.root] = NoNode

RECURSIVE DescOf(_, _)
DescOf(kids, todo) ==      \* todo: sequence of nodes; depth-first preorder
  IF todo = <<>> THEN <<>> ELSE <<Head(todo)>> \o DescOf(kids, kids[Head(todo)] \o Tail(todo))
Descendants(g, n) == DescOf(g.kids, <<n>>)
RECURSIVE Bfs(_, _)
Bfs(kids, todo) == IF todo = <<>> THEN <<>> ELSE <<Head(todo)>> \o Bfs(kids, Tail(todo) \o kids[Head(todo)])
RECURSIVE Ancestors(_, _)
Ancestors(g, n) == IF n = NoNode THEN {} ELSE {n} \cup Ancestors(g, g.par[n])

(* --- node creation and placement --- *)
NewNode(g, n, o, a, b, m) ==      \* a detached node
  [g EXCEPT !.N = @ \cup {n}, !.op = Upd(@, n :> o), !.par = Upd(@, n :> NoNode), !.kids = Upd(@, n :> <<>>),
            !.ni = Upd(@, n :> a), !.no = Upd(@, n :> b), !.md = Upd(@, n :> m)]
Fresh(g, n, o) == NewNode(g, n, o, NumIn(o), NumOut(o), Fn0)
Detach(g, n) ==
  IF g.par[n] = NoNode THEN g
  ELSE [g EXCEPT !.kids[g.par[n]] = Del(@, n), !.par[n] = NoNode]
Attach(g, n, p) == LET h == Detach(g, n) IN [h EXCEPT !.par[n] = p, !.kids[p] = Append(@, n)]
PlaceBefore(g, n, s) == LET h == Detach(g, n) IN [h EXCEPT !.par[n] = h.par[s], !.kids[h.par[s]] = InsBefore(@, s, n)]
PlaceAfter(g, n, s)  == LET h == Detach(g, n) IN [h EXCEPT !.par[n] = h.par[s], !.kids[h.par[s]] = InsAfter(@, s, n)]

AddChild(g, p, o, n)  == Attach(Fresh(g, n, o), n, p)
AddBefore(g, s, o, n) == PlaceBefore(Fresh(g, n, o), n, s)
AddAfter(g, s, o, n)  == PlaceAfter(Fresh(g, n, o), n, s)

(* Removing a set of nodes: all their links go; surviving children become detached *)
RemoveSet(g, S) ==
  LET M == g.N \ S
      par2 == [n \in M |-> IF g.par[n] \in S THEN NoNode ELSE g.par[n]]
  IN [g EXCEPT !.N = M, !.op = Without(@, S), !.par = par2,
        !.kids = [n \in M |-> SelectSeq(g.kids[n], LAMBDA x : x \notin S)],
        !.ni = Without(@, S), !.no = Without(@, S), !.md = Without(@, S),
        !.E = KeepE(@, LAMBDA e : e[1] \notin S /\ e[3] \notin S)]
RemoveNode(g, n) == RemoveSet(g, {n})
RemoveTree(g, n) == RemoveSet(g, Range(Descendants(g, n)))

(* --- edges --- *)
Connect(g, s, so, d, di) == [g EXCEPT !.E = @ (+) (<<s, so, d, di>> :> 1)]
Disconnect(g, n, dir, off) ==
  [g EXCEPT !.E = KeepE(@, LAMBDA e : IF dir = "in" THEN ~(e[3] = n /\ e[4] = off) ELSE ~(e[1] = n /\ e[2] = off))]
OtherEdge(g, s, d) == Connect(g, s, OtherOutOff(g.op[s]), d, OtherInOff(g.op[d]))
(* Resizing keeps links on surviving ports only *)
SetPorts(g, n, a, b) ==
  [g EXCEPT !.ni[n] = a, !.no[n] = b,
            !.E = KeepE(@, LAMBDA e : (e[3] = n => e[4] < a) /\ (e[1] = n => e[2] < b))]
AddPorts(g, n, dir, k) ==
  LET pos(x) == IF x < 0 THEN 0 ELSE x
  IN IF dir = "in" THEN SetPorts(g, n, pos(g.ni[n] + k), g.no[n]) ELSE SetPorts(g, n, g.ni[n], pos(g.no[n] + k))
(* Inserting ports renumbers the later ones and keeps every link *)
InsertPorts(g, n, dir, at, k) ==
  LET sh(x) == IF x >= at THEN x + k ELSE x
      mv(e) == IF dir = "in" THEN IF e[3] = n THEN <<e[1], e[2], e[3], sh(e[4])>> ELSE e
                             ELSE IF e[1] = n THEN <<e[1], sh(e[2]), e[3], e[4]>> ELSE e
      h == IF dir = "in" THEN [g EXCEPT !.ni[n] = @ + k] ELSE [g EXCEPT !.no[n] = @ + k]
  IN [h EXCEPT !.E = MapE(@, mv)]

(* --- data --- *)
SetMeta(g, n, k, v) == [g EXCEPT !.md[n] = Upd(@, k :> v)]
RemoveMeta(g, n, k) == [g EXCEPT !.md[n] = Without(@, {k})]
ReplaceOp(g, n, o) == [g EXCEPT !.op[n] = o]
SetEntry(g, n) == [g EXCEPT !.entry = n]
SetRoot(g, n) == [Detach(g, n) EXCEPT !.root = n]

(* --- copying a subtree: m maps the strict descendants to the new nodes --- *)
IsInjOn(m, S) == DOMAIN m = S /\ Cardinality({m[x] : x \in S}) = Cardinality(S)
(* edges whose ends lie in the copied set are copied inside; boundary edges keep the outer end *)
CopyEdges(B, m) ==
  LET D == DOMAIN m
      f(x) == IF x \in D THEN m[x] ELSE x
      T == KeepE(B, LAMBDA e : e[1] \in D \/ e[3] \in D)
  IN MapE(T, LAMBDA e : <<f(e[1]), e[2], f(e[3]), e[4]>>)
CopyDesc(g, n, p, m) ==
  LET D == DOMAIN m
      inv == [y \in {m[x] : x \in D} |-> CHOOSE x \in D : m[x] = y]
      NN == DOMAIN inv
      h == [g EXCEPT !.N = @ \cup NN,
                     !.op = Upd(@, [y \in NN |-> g.op[inv[y]]]),
                     !.ni = Upd(@, [y \in NN |-> g.ni[inv[y]]]),
                     !.no = Upd(@, [y \in NN |-> g.no[inv[y]]]),
                     !.md = Upd(@, [y \in NN |-> g.md[inv[y]]]),
                     !.par = Upd(@, [y \in NN |-> IF g.par[inv[y]] = n THEN p ELSE m[g.par[inv[y]]]]),
                     !.kids = Upd(@, [y \in NN |-> [i \in DOMAIN g.kids[inv[y]] |-> m[g.kids[inv[y]][i]]]]),
                     !.E = @ (+) CopyEdges(@, m)]
  IN [h EXCEPT !.kids[p] = @ \o [i \in DOMAIN g.kids[n] |-> m[g.kids[n][i]]]]

(* --- inserting part of another graph --- *)
(* nodes: sequence of nodes of o to copy; roots: sequence of <<node of o, parent in g>>, later *)
(* entries for a node override earlier ones; m: the node map.                                    *)
(* The order in which several roots are appended to one parent is not documented, so it is not   *)
(* part of the specification; the order of other siblings follows `nodes`.                        *)
LastParent(roots, x) == roots[CHOOSE i \in DOMAIN roots : roots[i][1] = x /\ \A j \in DOMAIN roots : roots[j][1] = x => j <= i][2]
RootSet(roots) == {roots[i][1] : i \in DOMAIN roots}
InsertNodes(g, o, nodes, roots, m) ==
  LET D == Range(nodes)
      R == RootSet(roots)
      inv == [y \in {m[x] : x \in D} |-> CHOOSE x \in D : m[x] = y]
      NN == DOMAIN inv
      inner(x) == x \notin R
      kidsOf(x) == SelectSeq(nodes, LAMBDA y : inner(y) /\ o.par[y] = x)
  IN [g EXCEPT !.N = @ \cup NN,
               !.op = Upd(@, [y \in NN |-> o.op[inv[y]]]),
               !.ni = Upd(@, [y \in NN |-> o.ni[inv[y]]]),
               !.no = Upd(@, [y \in NN |-> o.no[inv[y]]]),
               !.md = Upd(@, [y \in NN |-> o.md[inv[y]]]),
               !.par = Upd(@, [y \in NN |-> IF inv[y] \in R THEN LastParent(roots, inv[y])
                                          ELSE IF o.par[inv[y]] \in D THEN m[o.par[inv[y]]] ELSE NoNode]),
               !.kids = Upd(@, [y \in NN |-> LET ks == kidsOf(inv[y]) IN [i \in DOMAIN ks |-> m[ks[i]]]]),
               !.E = @ (+) MapE(KeepE(o.E, LAMBDA e : e[1] \in D /\ e[3] \in D), LAMBDA e : <<m[e[1]], e[2], m[e[3]], e[4]>>)]
(* The resulting sibling order: old children first, then the new ones in some order *)
KidsMatch(h, g, x, roots, m) ==       \* h: reported state, x: expected state before roots are appended
  \A n \in x.N :
    LET R == {m[r] : r \in {q \in RootSet(roots) : LastParent(roots, q) = n}}
        old == x.kids[n]
        new == h.kids[n]
    IN IF R = {} THEN new = old
       ELSE /\ Len(new) = Len(old) + Cardinality(R)
            /\ SelectSeq(new, LAMBDA y : y \notin R) = old
            /\ R \subseteq Range(new)
InsertForestErr(o, roots) ==
  LET R == RootSet(roots)
  IN IF \E x \in R : (Ancestors(o, x) \ {x}) \cap R # {} THEN "SubtreeAlreadyCopied" ELSE ""
InsertViewForestErr(nodes) == IF Cardinality(Range(nodes)) # Len(nodes) THEN "DuplicateNode" ELSE ""
ForestNodes(o, roots) == FoldSet(LAMBDA x, acc : acc \o Descendants(o, x), <<>>, RootSet(roots))

(* --- renumbering: breadth-first from the root, contiguous --- *)
Canon(g) ==
  LET ord == Bfs(g.kids, <<g.root>>)
      m == [n \in g.N |-> PosOf(ord, n) - 1]
      NN == 0..(Len(ord) - 1)
      f(n) == IF n = NoNode THEN NoNode ELSE m[n]
  IN [N |-> NN, op |-> [i \in NN |-> g.op[ord[i + 1]]], par |-> [i \in NN |-> f(g.par[ord[i + 1]])],
      kids |-> [i \in NN |-> LET k == g.kids[ord[i + 1]] IN [j \in DOMAIN k |-> m[k[j]]]],
      ni |-> [i \in NN |-> g.ni[ord[i + 1]]], no |-> [i \in NN |-> g.no[ord[i + 1]]], md |-> [i \in NN |-> g.md[ord[i + 1]]],
      E |-> MapE(g.E, LAMBDA e : <<m[e[1]], e[2], m[e[3]], e[4]>>), root |-> m[g.root], entry |-> m[g.entry]]

(* --- queries --- *)
LinksIn(g, n, off)  == KeepE(g.E, LAMBDA e : e[3] = n /\ e[4] = off)
LinksOut(g, n, off) == KeepE(g.E, LAMBDA e : e[1] = n /\ e[2] = off)
InEdges(g, n)  == KeepE(g.E, LAMBDA e : e[3] = n)
OutEdges(g, n) == KeepE(g.E, LAMBDA e : e[1] = n)
=============================================================================
