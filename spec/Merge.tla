-------------------------------- MODULE Merge --------------------------------
(* How vortices (or heat particles) get their sizes and are merged.          *)
(* A particle is [x, y, g, e]; g = 0: it has been merged into another one.   *)
(* A cell is [ids, near, crit, squeeze, floor]: the particles in it, those of *)
(* the cells near to it, the squared distance below which two are merged     *)
(* (Never: merging is off), whether one squeezed between two of the other    *)
(* sign is merged as well, the least size.                                   *)
(* Positions are integers: a centre of two is rounded, so a decision that a  *)
(* such a rounding could turn is left open (Open).                           *)
EXTENDS Integers, Sequences, FiniteSets

AbsM(x) == IF x < 0 THEN -x ELSE x
SignM(g) == IF g > 0 THEN 1 ELSE -1
D2(a, b) == (a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)
RECURSIVE RootM(_, _)
RootM(n, g) == LET h == (g + n \div g) \div 2 IN IF h >= g THEN g ELSE RootM(n, h)
SqrtM(n) == IF n <= 1 THEN n ELSE RootM(n, IF n > 2000000000 THEN 46340 ELSE n)
Never == -1

(* the two others nearest to the particle k: <<>>, <<a>> or <<a, b>>           *)
Others(s, c, k) == {l \in c.near : l # k /\ s[l].g # 0}
NearestM(s, k, K) == CHOOSE a \in K : \A b \in K : D2(s[k], s[a]) <= D2(s[k], s[b])
Two(s, c, k) ==
  LET K == Others(s, c, k)
  IN IF K = {} THEN <<>>
     ELSE LET a == NearestM(s, k, K)
          IN IF K = {a} THEN <<a>> ELSE <<a, NearestM(s, k, K \ {a})>>

(* the size the neighbours give *)
Size2(s, c, k) ==
  LET t == Two(s, c, k) IN IF t = <<>> THEN 0 ELSE D2(s[k], s[t[Len(t)]])

Close(s, c, k, a) == c.crit # Never /\ D2(s[k], s[a]) < c.crit
Squeezed(s, c, k, t) ==
  /\ c.crit # Never /\ c.squeeze
  /\ SignM(s[t[1]].g) = SignM(s[t[2]].g) /\ SignM(s[t[1]].g) # SignM(s[k].g)
Merges(s, c, k) == LET t == Two(s, c, k) IN Len(t) = 2 /\ (Close(s, c, k, t[1]) \/ Squeezed(s, c, k, t))

RoundDiv(a, b) == IF b > 0 THEN (2 * a + b) \div (2 * b) ELSE (-2 * a - b) \div (-2 * b)
(* k takes the particle a in *)
Merged(s, k, a) ==
  LET p == s[k] q == s[a] IN
  [s EXCEPT ![k] = [x |-> IF SignM(p.g) = SignM(q.g) THEN RoundDiv(p.x * p.g + q.x * q.g, p.g + q.g)
                          ELSE IF AbsM(p.g) < AbsM(q.g) THEN q.x ELSE p.x,
                    y |-> IF SignM(p.g) = SignM(q.g) THEN RoundDiv(p.y * p.g + q.y * q.g, p.g + q.g)
                          ELSE IF AbsM(p.g) < AbsM(q.g) THEN q.y ELSE p.y,
                    e |-> IF SignM(p.g) = SignM(q.g) THEN (IF p.e > q.e THEN p.e ELSE q.e) + 1
                          ELSE IF AbsM(p.g) < AbsM(q.g) THEN q.e ELSE p.e,
                    g |-> p.g + q.g],
            ![a].g = 0]

(* ------------------------------------- could a rounding turn the decision? *)
(* e: the rounding a particle's place may carry                              *)
Blur(p, q) == LET t == p.e + q.e IN IF t = 0 THEN 0 ELSE 2 * t * SqrtM(D2(p, q)) + t * t + 1
Third(s, c, k, t) == LET K == Others(s, c, k) \ {t[1], t[2]} IN IF K = {} THEN Never ELSE NearestM(s, k, K)
Open(s, c, k) ==
  /\ c.crit # Never
  /\ LET t == Two(s, c, k)
     IN /\ Len(t) = 2
        /\ LET d1 == D2(s[k], s[t[1]]) d2 == D2(s[k], s[t[2]]) n3 == Third(s, c, k, t)
               b1 == Blur(s[k], s[t[1]]) b2 == Blur(s[k], s[t[2]])
               close == Close(s, c, k, t[1]) squeezed == Squeezed(s, c, k, t)
               doubt == AbsM(d1 - c.crit) <= b1 + c.blur
           IN \/ doubt /\ ~squeezed
              \/ (close \/ squeezed \/ doubt) /\ d2 - d1 <= b1 + b2
              \/ /\ c.squeeze /\ ~close /\ n3 # Never
                 /\ SignM(s[t[1]].g) # SignM(s[k].g) \/ d2 - d1 <= b1 + b2
                 /\ D2(s[k], s[n3]) - d2 <= b2 + Blur(s[k], s[n3])

(* one particle of a cell gets its turn: merged with its nearest if it must,  *)
(* and its size taken afterwards                                              *)
Turn(st, c, k) ==
  IF st.open \/ st.s[k].g = 0 THEN st
  ELSE IF Open(st.s, c, k) THEN [st EXCEPT !.open = TRUE]
  ELSE LET m == Merges(st.s, c, k)
           s == IF m THEN Merged(st.s, k, Two(st.s, c, k)[1]) ELSE st.s
       IN [st EXCEPT !.s = s, !.merged = @ + (IF m THEN 1 ELSE 0),
                     !.size2[k] = IF s[k].g = 0 THEN Never ELSE Size2(s, c, k)]
=============================================================================
