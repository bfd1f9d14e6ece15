---------------------------- MODULE Trace_Sparse ----------------------------
(***************************************************************************)
(* Recorded executions of sparse Merkle trees, judged by the contract      *)
(* SparseLog with SHA-256 and 256-bit keys.                                *)
(***************************************************************************)
EXTENDS TraceBase, SparseLog, ShaHash

VARIABLES store,     \* the entries of the store, where the driver reports them
          gone,      \* digests lost or damaged behind the tree's back
          saved      \* a remembered <<map, olds, store, gone>>
tvars == <<l, map, olds, store, gone, saved>>

NoStore == {}
Init == TraceStart /\ SInit /\ store = NoStore /\ gone = {} /\ saved = <<>>
Rest == UNCHANGED <<store, gone, saved>>

TNew == /\ Ev("new") /\ map' = NoEntries /\ olds' = (ZeroH :> NoEntries)
        /\ store' = NoStore /\ gone' = {} /\ saved' = <<>>

\* An operation on a store in which nothing is missing; ev.f: a storage call
\* failed during it.
TUpdate ==
  /\ Ev("update") /\ Rest
  /\ IF ev.f THEN ev.r = "storage" /\ (IF ev.d = "" THEN MaybeRemove(ev.k) ELSE MaybePut(ev.k, Sha(<<ev.d>>)))
             ELSE ev.r = "ok" /\ (IF ev.d = "" THEN Remove(ev.k) ELSE Put(ev.k, Sha(<<ev.d>>)))
TDelete ==
  /\ Ev("delete") /\ Rest
  /\ IF ev.f THEN ev.r = "storage" /\ MaybeRemove(ev.k)
             ELSE ev.r = "ok" /\ Remove(ev.k)

TRoot == Ev("root") /\ ev.r = "ok" /\ ev.v = SRootOut /\ SRead /\ Rest

\* Loading a root that must be loadable.
TLoad == /\ Ev("load") /\ Rest
         /\ IF ev.f THEN ev.r = "storage" /\ SRead
                    ELSE ev.r = "ok" /\ LoadRoot(ev.root)

\* Nodes were removed from, or given an invalid kind in, the store.
TLose == Ev("lose") /\ gone' = gone \cup {ev.keys[x] : x \in 1 .. Len(ev.keys)}
         /\ SRead /\ UNCHANGED <<store, saved>>
\* All of them are back: nothing is excused by their absence any more.
TFound == Ev("found") /\ gone' = {} /\ SRead /\ UNCHANGED <<store, saved>>

\* An error that names a missing node names one that is missing.
Honest == ev.e # "" => ev.e \in gone

\* An operation on such a store: it succeeds completely, or it fails and
\* changes nothing.  An update stores nodes anew; what is missing then is
\* not tracked (and not needed for the verdict).
TUpdateX == /\ Ev("updatex") /\ Rest
            /\ \/ ev.r = "ok" /\ (IF ev.d = "" THEN Remove(ev.k) ELSE Put(ev.k, Sha(<<ev.d>>)))
               \/ ev.r = "err" /\ Honest /\ SRead
TDeleteX == /\ Ev("deletex") /\ Rest
            /\ \/ ev.r = "ok" /\ Remove(ev.k)
               \/ ev.r = "err" /\ Honest /\ SRead
\* The root node itself is what loading needs.
TLoadX == /\ Ev("loadx") /\ Rest
          /\ IF ev.root \in gone \/ ev.root \notin DOMAIN olds
             THEN ev.r = "err" /\ ev.e \in {"", ev.root} /\ SRead
             ELSE ev.r = "ok" /\ LoadRoot(ev.root)

\* The store as it is now, entries <<key, height, kind, lo, hi>>.
TBase == /\ Ev("base")
         /\ store' = {ev.es[x] : x \in 1 .. Len(ev.es)}
         /\ SRead /\ UNCHANGED <<gone, saved>>

\* The process ended inside update(ev.k, ev.d) (delete if ev.d is empty), when
\* the store had gained ev.add and lost ev.rem: the tree before the operation
\* is complete in it or, for a removal, the tree after it.
TCrash ==
  /\ Ev("crash") /\ UNCHANGED <<gone, saved, store>>
  /\ LET has == store \cup {ev.add[x] : x \in 1 .. Len(ev.add)}
         rem == {ev.rem[x] : x \in 1 .. Len(ev.rem)}
         intact(m) == \A x \in SNodes(m) : x \in has /\ x[1] \notin rem
     IN IF ev.d # "" THEN intact(map) /\ SRead
        ELSE \/ intact(map) /\ SRead
             \/ ev.k \in DOMAIN map /\ intact(Without(map, ev.k)) /\ Remove(ev.k)
\* Resuming from the tree that is complete.
TResume == Ev("resume") /\ Rest /\ ev.r = "ok" /\ ev.root = SRootOut /\ SRead

\* What an operation did to the store: entries <<key, height, kind, lo, hi>>
\* added, changed in place, and removed.
WellFormed(x) ==
  CASE x[3] = 0 -> x[2] = 0 /\ x[1] = SLeafH(x[4], x[5])
    [] x[3] = 1 -> x[2] \in 1 .. MaxH /\ x[1] = SNodeH(x[4], x[5])
    [] OTHER -> FALSE
TStore ==
  /\ Ev("store") /\ SRead /\ UNCHANGED <<gone, saved>>
  /\ ev.chg = <<>>
  /\ ev.keep => ev.rem = <<>>
  /\ ev.quiet => ev.add = <<>> /\ ev.rem = <<>>
  /\ \A x \in 1 .. Len(ev.add) : WellFormed(ev.add[x])
  /\ LET rem == {ev.rem[x] : x \in 1 .. Len(ev.rem)}
     IN  store' = {x \in store \cup {ev.add[y] : y \in 1 .. Len(ev.add)} : x[1] \notin rem}
  /\ SNodes(map) \subseteq store'

\* A successful operation, with the entries that are not in the store any more.
TReclaim ==
  /\ Ev("reclaim") /\ ev.r = "ok" /\ Rest
  /\ LET removes == ev.d = "" /\ ev.k \in DOMAIN map
         rem == {ev.rem[x] : x \in 1 .. Len(ev.rem)}
     IN  /\ rem = IF removes THEN SStale(map, ev.k) ELSE {}
         /\ IF ev.d = "" THEN Remove(ev.k) ELSE Put(ev.k, Sha(<<ev.d>>))

TMark == Ev("mark") /\ saved' = <<map, olds, store, gone>> /\ SRead /\ UNCHANGED <<store, gone>>
TBack == Ev("back") /\ map' = saved[1] /\ olds' = saved[2] /\ store' = saved[3] /\ gone' = saved[4] /\ UNCHANGED saved

\* These steps, as <<action, key, data>>, one after another.
RECURSIVE Replay(_, _)
Replay(m, steps) ==
  IF steps = <<>> THEN m
  ELSE LET s == Head(steps)
           n == IF s[1] = "update" /\ s[3] # "" THEN With(m, s[2], Sha(<<s[3]>>))
                ELSE Without(m, s[2])
       IN Replay(n, Tail(steps))

\* Several operations, all of which succeeded.  (The maps in between were not
\* looked at, so that they need not be remembered.)
TBulk ==
  /\ Ev("bulk") /\ ev.r = "ok" /\ Rest
  /\ LET m == Replay(map, ev.steps)
         keeps == \A x \in 1 .. Len(ev.steps) : ev.steps[x][1] = "update" /\ ev.steps[x][3] # ""
     IN  map' = m /\ olds' = (SRoot(m) :> m) @@ (IF keeps THEN olds ELSE (ZeroH :> NoEntries))

\* The fixture runner was given these steps, as <<action, key, data>>, and a
\* claimed root: it passes exactly the true claims.
TFixture ==
  /\ Ev("fixture") /\ SRead /\ Rest
  /\ IF \E x \in 1 .. Len(ev.steps) : ev.steps[x][1] \notin {"update", "delete"}
     THEN ev.r = "unsupported"
     ELSE IF ev.bad THEN ev.r = "decoding" \/ <<"sparse-" \o ev.flaw, ev.r>> \in Known
     ELSE ev.r = IF SRoot(Replay(NoEntries, ev.steps)) = ev.claim THEN "ok" ELSE "failed"

Next == \/ TNew \/ TUpdate \/ TDelete \/ TRoot \/ TLoad \/ TLose \/ TFound \/ TUpdateX \/ TDeleteX
        \/ TLoadX \/ TBase \/ TCrash \/ TResume \/ TStore \/ TFixture \/ TMark \/ TBack
        \/ TBulk \/ TReclaim
Spec == Init /\ [][Next]_tvars
=============================================================================
