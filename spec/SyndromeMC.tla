----------------------------- MODULE SyndromeMC -----------------------------
(***************************************************************************)
(* Error detection of the Blech32 checksum.  A state is a pattern of at    *)
(* most two wrong characters among the last N; its VIEW is the remainder   *)
(* the pattern leaves, taken modulo the difference between the two final   *)
(* constants.  No two patterns share it exactly when TLC finds as many     *)
(* distinct states as there are patterns - then every error of up to four  *)
(* characters is detected and none turns one variant into the other.       *)
(***************************************************************************)
EXTENDS Bech, TLC

CONSTANT N

(* remainder of digit d at p characters from the end *)
Tab == LET unit(d) == FoldLeft(LAMBDA acc, p : Append(acc, BlechStep(acc[p], 0)),
                               << <<0, d>> >>, [p \in 1..(N - 1) |-> p])
       IN [d \in 1..31 |-> unit(d)]
X2(a, b) == << a[1] ^^ b[1], a[2] ^^ b[2] >>
Delta == X2(Plain("blech"), Modif("blech"))
Canon(s) == LET t == X2(s, Delta)
            IN IF s[1] < t[1] \/ (s[1] = t[1] /\ s[2] < t[2]) THEN s ELSE t

VARIABLES weight, far, syn
Init == weight = 0 /\ far = 0 /\ syn = <<0, 0>>
Next == /\ weight < 2
        /\ \E p \in (far + 1)..N, d \in 1..31 :
             /\ syn' = X2(syn, Tab[d][p])
             /\ far' = p
        /\ weight' = weight + 1
View == Canon(syn)
=============================================================================
