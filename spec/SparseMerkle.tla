---------------------------- MODULE SparseMerkle ----------------------------
(***************************************************************************)
(* The sparse Merkle tree step by step, as src/sparse/merkle_tree.rs does  *)
(* it: a store of nodes keyed by their digest, the root node in memory;    *)
(* an operation reads its path, then performs its writes one by one (any   *)
(* may fail, or be the last thing the process does), switches the root,    *)
(* and, for a removal, deletes the old path's nodes.                       *)
(***************************************************************************)
EXTENDS SparseLog

CONSTANTS Keys, Vals,
          MaxFaults,     \* failures and crashes explored along one behaviour
          RemoveFirst    \* TRUE: old nodes are deleted before the new root is
                         \* in place (the repaired defect, kept to be caught)

VARIABLES store,     \* digest -> node
          root,      \* the root node
          todo,      \* writes and deletions of the operation in progress
          post,      \* the map the operation leads to
          pc,        \* "idle", "writing", "down"
          faults

vars == <<map, olds, store, root, todo, post, pc, faults>>

-----------------------------------------------------------------------------
(* Nodes, as in src/sparse/node.rs.  k: 0 leaf, 1 inner node, 2 placeholder. *)

Placeholder == [h |-> 0, k |-> 2, lo |-> ZeroH, hi |-> ZeroH]
LeafNode(key, v) == [h |-> 0, k |-> 0, lo |-> key, hi |-> v]
Digest(n) == CASE n.k = 2 -> ZeroH
               [] n.k = 0 -> SLeafH(n.lo, n.hi)
               [] OTHER   -> SNodeH(n.lo, n.hi)
IsLeaf(n) == n.k # 1
Get(d) == IF d = ZeroH THEN Placeholder ELSE store[d]
Child(n, b) == Get(IF b = 0 THEN n.lo ELSE n.hi)

RECURSIVE CommonFrom(_, _, _)
CommonFrom(a, b, d) == IF d = MaxH \/ BitOf(a, d) # BitOf(b, d) THEN d ELSE CommonFrom(a, b, d + 1)
Common(x, y) == IF x.k = 2 \/ y.k = 2 THEN 0 ELSE CommonFrom(x.lo, y.lo, 0)

MaxOf(a, b) == IF a > b THEN a ELSE b
\* create_node_on_path
OnPath(key, p, s) ==
  LET h == IF IsLeaf(p) /\ IsLeaf(s) THEN MaxH - Common(p, s) ELSE MaxOf(p.h, s.h) + 1
      d == MaxH - h
  IN IF BitOf(key, d) = 0 THEN [h |-> h, k |-> 1, lo |-> Digest(p), hi |-> Digest(s)]
                          ELSE [h |-> h, k |-> 1, lo |-> Digest(s), hi |-> Digest(p)]

\* The path from node n to the given key, <<path node, side node>> pairs, root first.
RECURSIVE Walk(_, _, _)
Walk(n, side, key) ==
  <<<<n, side>>>> \o
  (IF IsLeaf(n) THEN <<>>
   ELSE LET b == BitOf(key, MaxH - n.h) IN Walk(Child(n, b), Child(n, 1 - b), key))

\* Leaf to root, without the root's own entry among the sides.
PathSet(key) ==
  LET w == Walk(root, root, key)
  IN  << [x \in 1 .. Len(w) |-> w[Len(w) + 1 - x][1]],
         [x \in 1 .. Len(w) - 1 |-> w[Len(w) + 1 - x][2]] >>

\* Building upwards: the nodes created, bottom first.
RECURSIVE Up(_, _, _)
Up(key, cur, sides) ==
  IF sides = <<>> THEN <<>>
  ELSE LET n == OnPath(key, cur, Head(sides)) IN <<n>> \o Up(key, n, Tail(sides))

LastOr(s, x) == IF s = <<>> THEN x ELSE s[Len(s)]

\* The nodes update(key, v) writes, in order; the last is the new root.
UpdateWrites(key, v) ==
  LET leaf == LeafNode(key, v)
  IN IF root.k = 2 THEN <<leaf>>
     ELSE LET ps    == PathSet(key)
              act   == ps[1][1]
              sides == ps[2]
              new   == act.k = 2 \/ act.lo # key
              m1    == IF new /\ act.k # 2 THEN <<OnPath(key, leaf, act)>> ELSE <<>>
              gap   == IF new THEN MaxOf(Len(sides), Common(leaf, act)) - Len(sides) ELSE 0
              m2    == Up(key, LastOr(m1, leaf), [x \in 1 .. gap |-> Placeholder])
              m3    == Up(key, LastOr(m1 \o m2, leaf), sides)
          IN  <<leaf>> \o m1 \o m2 \o m3

\* delete(key) of a present key: <<writes, new root, digests to delete>>
DeleteEffect(key) ==
  LET ps    == PathSet(key)
      sides == ps[2]
      orphan == sides # <<>> /\ IsLeaf(sides[1])
      rest  == IF sides = <<>> THEN <<>> ELSE Tail(sides)
      skip  == IF \E x \in 1 .. Len(rest) : rest[x].k # 2
               THEN (CHOOSE x \in 1 .. Len(rest) : rest[x].k # 2 /\ \A y \in 1 .. x - 1 : rest[y].k = 2)
               ELSE 0
      used  == IF ~orphan THEN sides
               ELSE IF skip = 0 THEN <<>> ELSE SubSeq(rest, skip, Len(rest))
      start == IF orphan THEN sides[1] ELSE Placeholder
      ws    == Up(key, start, used)
  IN  <<ws, LastOr(ws, start), [x \in 1 .. Len(ps[1]) |-> Digest(ps[1][x])]>>

Present(key) == root.k # 2 /\ LET a == PathSet(key)[1][1] IN a.k = 0 /\ a.lo = key

-----------------------------------------------------------------------------
Init == /\ SInit /\ store = <<>> /\ root = Placeholder
        /\ todo = <<>> /\ post = NoEntries /\ pc = "idle" /\ faults = 0

Writes(ws)  == [x \in 1 .. Len(ws) |-> <<"put", ws[x]>>]
Drops(ds)   == [x \in 1 .. Len(ds) |-> <<"drop", ds[x]>>]

Begin(steps, m) == /\ todo' = steps /\ post' = m /\ pc' = "writing"
                   /\ UNCHANGED <<map, olds, store, root, faults>>

Update(k, v) == /\ pc = "idle"
                /\ LET ws == UpdateWrites(k, v)
                   IN  Begin(Writes(ws) \o <<<<"root", ws[Len(ws)]>>>>, With(map, k, v))
DeletePresent(k) ==
  /\ pc = "idle" /\ Present(k)
  /\ LET e == DeleteEffect(k)
         w == Writes(e[1]) \o <<<<"root", e[2]>>>>
     IN  Begin(IF RemoveFirst THEN Drops(e[3]) \o w ELSE w \o Drops(e[3]), Without(map, k))
DeleteAbsent(k) == pc = "idle" /\ ~Present(k) /\ UNCHANGED vars

\* The contract's step is taken when the root is switched.
Commit == /\ map' = post
          /\ IF \A k \in DOMAIN map : k \in DOMAIN post
             THEN olds' = (SRoot(post) :> post) @@ olds
             ELSE olds' = (SRoot(post) :> post) @@ (ZeroH :> NoEntries)

Step ==
  /\ pc = "writing"
  /\ LET s == Head(todo)
     IN /\ CASE s[1] = "put"  -> store' = (Digest(s[2]) :> s[2]) @@ store /\ UNCHANGED <<root, map, olds>>
             [] s[1] = "drop" -> store' = [d \in DOMAIN store \ {s[2]} |-> store[d]] /\ UNCHANGED <<root, map, olds>>
             [] s[1] = "root" -> root' = s[2] /\ Commit /\ UNCHANGED store
        /\ todo' = Tail(todo)
        /\ pc' = (IF Len(todo) = 1 THEN "idle" ELSE "writing")
        /\ UNCHANGED <<post, faults>>

\* The next write fails; the operation returns the error.
Fail == /\ pc = "writing" /\ Head(todo)[1] # "root" /\ faults < MaxFaults
        /\ todo' = <<>> /\ pc' = "idle" /\ faults' = faults + 1
        /\ UNCHANGED <<map, olds, store, root, post>>

Crash == /\ pc \in {"idle", "writing"} /\ faults < MaxFaults
         /\ pc' = "down" /\ todo' = <<>> /\ root' = Placeholder /\ faults' = faults + 1
         /\ UNCHANGED <<map, olds, store, post>>

\* load(root) of any loadable map
Load(r) == /\ pc \in {"idle", "down"} /\ r \in DOMAIN olds
           /\ (r = ZeroH \/ r \in DOMAIN store)
           /\ root' = Get(r) /\ LoadRoot(r) /\ pc' = "idle"
           /\ UNCHANGED <<store, todo, post, faults>>

Next == \/ \E k \in Keys, v \in Vals : Update(k, v)
        \/ \E k \in Keys : DeletePresent(k) \/ DeleteAbsent(k)
        \/ Step \/ Fail \/ Crash
        \/ \E r \in DOMAIN olds : Load(r)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Abstract == INSTANCE SparseLog
Refines == [][\/ \E k \in Keys, v \in Vals : Abstract!Put(k, v)
              \/ \E k \in Keys : Abstract!Remove(k)
              \/ \E r \in DOMAIN olds : Abstract!LoadRoot(r)]_<<map, olds>>

AsNode(x) == [h |-> x[2], k |-> x[3], lo |-> x[4], hi |-> x[5]]
Holds(m) == \A x \in SNodes(m) : x[1] \in DOMAIN store /\ store[x[1]] = AsNode(x)

RootOK     == pc # "down" => Digest(root) = SRootOut
\* Everything that has to be loadable is completely there -- in every state,
\* also between two writes.
StoreHolds == \A r \in DOMAIN olds : Holds(olds[r])
SelfCert   == \A d \in DOMAIN store : Digest(store[d]) = d /\ store[d].k \in {0, 1}
HeightsOK  == \A d \in DOMAIN store : IF store[d].k = 0 THEN store[d].h = 0 ELSE store[d].h \in 1 .. MaxH
PresentOK  == pc = "idle" => \A k \in Keys : Present(k) <=> k \in DOMAIN map
\* The inner nodes on the longest path.
Depths(m)  == IF Cardinality(DOMAIN m) < 2 THEN {0}
              ELSE { 1 + CommonFrom(x[1], x[2], 0) : x \in { y \in (DOMAIN m) \X (DOMAIN m) : y[1] # y[2] } }
\* An operation changes the path of its key, and nothing else: a write and a
\* deletion for each inner node and the leaf, and the switch of the root
\* (after which only the deletions are left).
CostOK     == pc = "writing" /\ map # post => \E p \in Depths(map) \cup Depths(post) : Len(todo) <= 2 * (p + 1) + 1
\* A removal deletes what it makes stale, all of it and nothing else, and nothing
\* else deletes.
DropsOK    == pc = "writing" /\ (\E x \in 1 .. Len(todo) : todo[x][1] = "root") =>
                { todo[x][2] : x \in { y \in 1 .. Len(todo) : todo[y][1] = "drop" } } =
                UNION { SStale(map, k) : k \in DOMAIN map \ DOMAIN post }
\* The root is a function of the map: trivially so here, since RootOK equates
\* it to one.  And it determines the map:
Injective  == \A r \in DOMAIN olds : \A s \in DOMAIN olds : olds[r] = olds[s] => r = s
=============================================================================
