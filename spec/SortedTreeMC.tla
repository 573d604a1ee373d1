---------------------------- MODULE SortedTreeMC ----------------------------
(* every set of objects on a small grid, every leaf: the construction keeps  *)
(* its promises *)
EXTENDS SortedTree
CONSTANTS W, H, Limit, Crits, Mins, Maxs, MaxN
VARIABLE s
Grid == {[x |-> a, y |-> b, g |-> ((a + 2 * b) % 3) - 1] : a \in 0..W, b \in 0..H}
Init == s = {}
Next == Cardinality(s) < MaxN
        /\ \E o \in Grid : (\A a \in s : <<a.x, a.y>> # <<o.x, o.y>>
                            /\ (a.x < o.x \/ (a.x = o.x /\ a.y < o.y))) /\ s' = s \cup {o}
Promises ==
  s # {} =>
  \A mn \in Mins, mx \in Maxs :
    LET cells == Cells(s, mn, mx, Limit)
        leaves == {c \in cells : Leaf(c, mn, mx, Limit)}
    IN /\ Partition(leaves, s) /\ {} \notin leaves
       /\ \A l \in leaves : (\A o \in l : Inside(Box(l), o))
       /\ \A l \in leaves, crit \in Crits :
            LET n == Near(l, s, crit, mn, mx, Limit) f == Far(l, s, crit, mn, mx, Limit)
            IN /\ Partition(n \cup f, s) /\ n \cap f = {}
               /\ l \in n
               /\ \A c \in f : FarApart(Box(l), Box(c), crit)
=============================================================================
