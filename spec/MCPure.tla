------------------------------- MODULE MCPure -------------------------------
(***************************************************************************)
(* Design model of C24: users make, drop and ask objects, and the library  *)
(* may remember answers.  An object is known to the user by the data it    *)
(* was made from and to the library by its place, which is used again      *)
(* after it is dropped.  A memory that finds answers by a key keeps the    *)
(* library a function if the key tells apart all that the answer depends   *)
(* on, and users may interleave between the look into the memory and the   *)
(* note in it.  Keys that leave something out are in the model too, and    *)
(* nothing is claimed of them.                                             *)
(***************************************************************************)
EXTENDS Pure
CONSTANTS Users, Places, Data, Args, Bounded
VARIABLES at,      \* place -> data of the object there, or Free
          key,     \* what the memory finds answers by
          memo,    \* key value -> answer
          busy,    \* user -> the request under way, or Idle
          seen,    \* request -> first answer
          differs  \* some request had two answers
vars == <<at, key, memo, busy, seen, differs>>

Free == "free"
NoMemory == {"none"}
Idle == [place |-> Free, arg |-> Free, found |-> Unknown]
Requests == Data \X Args
Answer(d, x) == d \o x
Keys == {NoMemory} \cup SUBSET {"data", "arg", "place", "user"}
Sound(k) == k = NoMemory \/ {"data", "arg"} \subseteq k
Under(k, u, p, d, x) == <<IF "user" \in k THEN u ELSE "", IF "place" \in k THEN p ELSE "",
                          IF "data" \in k THEN d ELSE "", IF "arg" \in k THEN x ELSE "">>

Init == /\ at = [p \in Places |-> Free]
        /\ key \in Keys
        /\ memo = <<>>
        /\ busy = [u \in Users |-> Idle]
        /\ seen = NothingSeen(Requests)
        /\ differs = FALSE

InUse(p) == \E u \in Users : busy[u].place = p
Make(p, d) == at[p] = Free /\ at' = [at EXCEPT ![p] = d] /\ UNCHANGED <<key, memo, busy, seen, differs>>
Drop(p) == at[p] # Free /\ ~InUse(p) /\ at' = [at EXCEPT ![p] = Free] /\ UNCHANGED <<key, memo, busy, seen, differs>>
\* a user asks; the library looks into its memory
Ask(u, p, x) ==
  /\ busy[u] = Idle /\ at[p] # Free
  /\ LET k == Under(key, u, p, at[p], x)
         found == IF k \in DOMAIN memo THEN memo[k] ELSE Unknown
     IN busy' = [busy EXCEPT ![u] = [place |-> p, arg |-> x, found |-> found]]
  /\ UNCHANGED <<at, key, memo, seen, differs>>
\* it answers with what it found or computes, and notes it
Reply(u) ==
  /\ busy[u] # Idle
  /\ LET b == busy[u]
         d == at[b.place]
         a == IF b.found # Unknown THEN b.found ELSE Answer(d, b.arg)
         k == Under(key, u, b.place, d, b.arg)
     IN /\ seen' = Saw(seen, <<d, b.arg>>, a)
        /\ memo' = IF key = NoMemory THEN memo ELSE (k :> a) @@ memo
        /\ differs' = (differs \/ ~Allowed(seen, <<d, b.arg>>, a))
  /\ busy' = [busy EXCEPT ![u] = Idle]
  /\ UNCHANGED <<at, key>>
\* the memory is bounded: what is in it may go, one note with its key or all of it
Evict == Bounded /\ \E k \in DOMAIN memo : memo' = [l \in DOMAIN memo \ {k} |-> memo[l]] /\ UNCHANGED <<at, key, busy, seen, differs>>
Next == \/ Evict \/ \E p \in Places : Drop(p) \/ \E d \in Data : Make(p, d)
        \/ \E u \in Users : Reply(u) \/ \E p \in Places, x \in Args : Ask(u, p, x)

\* a sound memory is invisible: every answer is the one the library would compute
Invisible == Sound(key) => /\ ~differs
                           /\ \A q \in Requests : seen[q] \in {Unknown, Answer(q[1], q[2])}
Remembered == Sound(key) => \A k \in DOMAIN memo : \E q \in Requests : memo[k] = Answer(q[1], q[2])
=============================================================================
