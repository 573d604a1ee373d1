---------------------------- MODULE ParallelStep ----------------------------
(* One time step spread over threads.  The particles of a leaf are handed    *)
(* out in chunks, whoever is free takes the next one; between the kinds of   *)
(* particles (and between the parts of the step) all threads wait for each   *)
(* other.  A thread reads what the previous phases have made (positions and  *)
(* circulations, a cache of expression values) and writes the velocity of    *)
(* its own particle, in several steps, from its own local sum.               *)
(*                                                                           *)
(* The discipline that makes the result independent of the schedule: nothing *)
(* read in a phase is written in it by another thread (NoRace), a cell is    *)
(* written by one thread only, and no sum is collected over threads.  The    *)
(* expression cache is the one exception: it is written in a critical        *)
(* section, and a hit and a miss give the same value.                        *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Threads, Items, Chunk, Phases, Shared
(* Shared = TRUE breaks the discipline: terms are collected in a shared cell *)

VARIABLES phase, next, at, upto, sub, local, out, done, cache, lock
vars == <<phase, next, at, upto, sub, local, out, done, cache, lock>>

(* what the item's velocity is made of: two terms of the previous phase *)
Prev(p, i) == IF p = 1 THEN i ELSE 3 * i + p
Term(p, i, k) == Prev(p, ((i * k) % Items) + 1) + 2 * k
Eval(p) == 10 + p          \* the expression at the current time
Expected(p, i) == Term(p, i, 1) + Term(p, i, 2) + Eval(p)

Init ==
  /\ phase = 1 /\ next = 1
  /\ at = [t \in Threads |-> 0] /\ upto = [t \in Threads |-> 0]
  /\ sub = [t \in Threads |-> "idle"]
  /\ local = [t \in Threads |-> 0]
  /\ out = [p \in 1..Phases |-> [i \in 1..Items |-> 0]]
  /\ done = [p \in 1..Phases |-> [i \in 1..Items |-> 0]]
  /\ cache = 0 /\ lock = 0

Sum(t) == IF Shared THEN local[CHOOSE x \in Threads : TRUE] ELSE local[t]
SetSum(t, v) == local' = [local EXCEPT ![IF Shared THEN CHOOSE x \in Threads : TRUE ELSE t] = v]

Take(t) == /\ sub[t] = "idle" /\ phase <= Phases /\ next <= Items
           /\ at' = [at EXCEPT ![t] = next]
           /\ upto' = [upto EXCEPT ![t] = IF next + Chunk - 1 > Items THEN Items ELSE next + Chunk - 1]
           /\ next' = next + Chunk
           /\ sub' = [sub EXCEPT ![t] = "zero"]
           /\ UNCHANGED <<phase, local, out, done, cache, lock>>
Zero(t) == sub[t] = "zero" /\ sub' = [sub EXCEPT ![t] = "first"] /\ SetSum(t, 0)
           /\ UNCHANGED <<phase, next, at, upto, out, done, cache, lock>>
First(t) == sub[t] = "first" /\ sub' = [sub EXCEPT ![t] = "second"]
            /\ SetSum(t, Sum(t) + Term(phase, at[t], 1))
            /\ UNCHANGED <<phase, next, at, upto, out, done, cache, lock>>
Second(t) == sub[t] = "second" /\ sub' = [sub EXCEPT ![t] = "look"]
             /\ SetSum(t, Sum(t) + Term(phase, at[t], 2))
             /\ UNCHANGED <<phase, next, at, upto, out, done, cache, lock>>
Look(t) == /\ sub[t] = "look" /\ lock = 0
           /\ IF cache = Eval(phase) THEN sub' = [sub EXCEPT ![t] = "store"] /\ lock' = lock
                                          /\ SetSum(t, Sum(t) + cache)
              ELSE sub' = [sub EXCEPT ![t] = "miss"] /\ lock' = t /\ UNCHANGED local
           /\ UNCHANGED <<phase, next, at, upto, out, done, cache>>
Miss(t) == sub[t] = "miss" /\ lock = t /\ cache' = Eval(phase) /\ lock' = 0
           /\ sub' = [sub EXCEPT ![t] = "store"] /\ SetSum(t, Sum(t) + Eval(phase))
           /\ UNCHANGED <<phase, next, at, upto, out, done>>
Store(t) == /\ sub[t] = "store"
            /\ out' = [out EXCEPT ![phase][at[t]] = Sum(t)]
            /\ done' = [done EXCEPT ![phase][at[t]] = @ + 1]
            /\ IF at[t] < upto[t]
               THEN at' = [at EXCEPT ![t] = @ + 1] /\ sub' = [sub EXCEPT ![t] = "zero"]
               ELSE at' = at /\ sub' = [sub EXCEPT ![t] = "idle"]
            /\ UNCHANGED <<phase, next, upto, local, cache, lock>>
(* all wait for each other *)
Barrier == /\ phase <= Phases /\ next > Items /\ \A t \in Threads : sub[t] = "idle"
           /\ phase' = phase + 1 /\ next' = 1
           /\ UNCHANGED <<at, upto, sub, local, out, done, cache, lock>>

Next == Barrier \/ \E t \in Threads : Take(t) \/ Zero(t) \/ First(t) \/ Second(t) \/ Look(t)
                                      \/ Miss(t) \/ Store(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* whatever the schedule, the result is that of one thread *)
Deterministic == \A p \in 1..(phase - 1) : \A i \in 1..Items : out[p][i] = Expected(p, i)
Once == \A p \in 1..(phase - 1) : \A i \in 1..Items : done[p][i] = 1
Exclusive == \A a, b \in Threads :
  (a # b /\ sub[a] \notin {"idle"} /\ sub[b] \notin {"idle"}) => at[a] # at[b]
Ends == <>(phase = Phases + 1)
Sym == Permutations(Threads)
=============================================================================
