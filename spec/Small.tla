-------------------------------- MODULE Small --------------------------------
(* Small scopes, exhaustively: every polynomial matrix F over a tiny field,   *)
(* of the given dimensions and length, with every parameter k and shift s of  *)
(* the configuration (and, where Len2 > 0, every second matrix G).  TLC       *)
(* enumerates them as initial states; each is exported as a case and replayed *)
(* on the library, whose answers PmlTrace then judges.                        *)
EXTENDS Integers, Sequences, TLC
CONSTANT Which      \* name of the family of configurations

\* shifts for m rows
S1 == {<<0>>}
S2 == {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<0, 2>>, <<2, 0>>}
S3 == {<<0, 0, 0>>, <<0, 1, 0>>, <<2, 0, 1>>, <<0, 1, 2>>}
C_(p, m, n, len, ks, ss, r2, c2, len2) == [p |-> p, m |-> m, n |-> n, len |-> len, ks |-> ks, ss |-> ss, r2 |-> r2, c2 |-> c2, len2 |-> len2]
Configs ==
  CASE Which = "bases" -> {C_(2, 2, 1, 3, 1..4, S2, 0, 0, 0), C_(2, 3, 1, 2, 1..3, S3, 0, 0, 0), C_(2, 2, 2, 2, 1..2, S2, 0, 0, 0),
                           C_(3, 2, 1, 2, 1..3, S2, 0, 0, 0), C_(2, 1, 2, 2, 1..3, S1, 0, 0, 0), C_(2, 3, 2, 1, {1, 2}, S3, 0, 0, 0)}
    [] Which = "points" -> {C_(3, 2, 1, 2, 1..3, S2, 0, 0, 0), C_(2, 2, 2, 2, 1..2, S2, 0, 0, 0), C_(2, 3, 1, 2, 1..2, S3, 0, 0, 0), C_(3, 1, 1, 3, 1..3, S1, 0, 0, 0), C_(2, 3, 2, 1, 1..2, S3, 0, 0, 0)}
    [] Which = "forms" -> {C_(2, 2, 2, 2, {0}, S2, 0, 0, 0), C_(2, 1, 3, 2, {0}, S3, 0, 0, 0), C_(2, 3, 2, 1, {0}, S2, 0, 0, 0), C_(3, 2, 2, 1, {0}, S2, 0, 0, 0), C_(2, 2, 3, 1, {0}, S3, 0, 0, 0), C_(2, 3, 3, 1, {0}, S3, 0, 0, 0)}
    [] Which = "square" -> {C_(2, 2, 2, 2, 1..3, S1, 0, 0, 0), C_(3, 2, 2, 1, 1..2, S1, 0, 0, 0), C_(3, 1, 1, 3, 1..4, S1, 0, 0, 0), C_(2, 3, 3, 1, {1, 2}, S1, 0, 0, 0), C_(2, 1, 1, 5, 1..6, S1, 0, 0, 0)}
    [] Which = "pairs" -> {C_(2, 2, 2, 1, {1}, S1, 2, 2, 1), C_(2, 1, 2, 2, 1..3, S1, 2, 1, 2), C_(3, 1, 1, 3, 1..3, S1, 1, 1, 3), C_(2, 2, 1, 2, {2}, S1, 1, 2, 2), C_(2, 1, 1, 4, 1..4, S1, 1, 1, 4)}
    [] Which = "systems" -> {C_(2, 2, 2, 2, {1}, S1, 2, 1, 2), C_(3, 1, 1, 2, {1}, S1, 1, 1, 3), C_(2, 3, 2, 1, {1}, S1, 3, 1, 1), C_(2, 1, 2, 2, {1}, S1, 1, 1, 3), C_(3, 2, 2, 1, {1}, S1, 2, 1, 1)}
    [] Which = "division" -> {C_(2, 2, 1, 2, {1}, S1, 2, 2, 2), C_(3, 1, 1, 4, {1}, S1, 1, 1, 3), C_(2, 1, 2, 3, {1}, S1, 1, 1, 3), C_(2, 2, 1, 3, {1}, S1, 2, 2, 1)}
    [] Which = "candidates" -> {C_(2, 2, 1, 2, 1..2, {<<0, 0>>, <<0, 1>>, <<1, 0>>}, 2, 2, 2)}
    \* rows of polynomials: bivariate operands, moduli and values, displacement data, sequences of series
    [] Which = "bivar" -> {C_(2, 1, 2, 2, {0, 1, 2}, S1, 1, 2, 2), C_(3, 1, 2, 1, {1}, S1, 1, 3, 1), C_(2, 1, 3, 2, {1}, S1, 1, 2, 1), C_(3, 1, 2, 2, {1}, S1, 1, 2, 1), C_(2, 1, 1, 3, {1}, S1, 1, 3, 2)}
    [] Which = "nodes" -> {C_(5, 1, 3, 1, {1}, S1, 1, 1, 3), C_(3, 1, 2, 1, {1}, S1, 1, 1, 2), C_(7, 1, 2, 1, {1}, S1, 1, 1, 2), C_(3, 1, 3, 1, {1}, S1, 1, 1, 3), C_(2, 1, 2, 1, {1}, S1, 1, 1, 2)}
    [] Which = "moduli" -> {C_(2, 1, 2, 3, {1}, S1, 1, 1, 4), C_(3, 1, 2, 2, {1}, S1, 1, 1, 3), C_(2, 1, 3, 2, {1}, S1, 1, 1, 3), C_(3, 1, 3, 2, {1}, S1, 1, 1, 2)}
    [] Which = "lines" -> {C_(2, 1, 5, 1, 1..5, S1, 0, 0, 0), C_(3, 1, 4, 1, 1..4, S1, 0, 0, 0), C_(2, 1, 7, 1, {2, 3, 4}, S1, 0, 0, 0), C_(2, 1, 1, 1, {1}, S1, 0, 0, 0), C_(5, 1, 2, 1, 1..2, S1, 0, 0, 0)}
    [] Which = "plines" -> {C_(2, 1, 3, 2, 1..3, S1, 0, 0, 0), C_(2, 1, 4, 2, 1..4, S1, 0, 0, 0), C_(3, 1, 2, 2, 1..2, S1, 0, 0, 0), C_(2, 1, 2, 3, 1..3, S1, 0, 0, 0)}
    [] Which = "mosaics" -> {C_(2, 1, 7, 1, {1, 2, 3}, S1, 0, 0, 0), C_(2, 1, 8, 1, {1, 2, 3}, S1, 0, 0, 0), C_(3, 1, 5, 1, {1, 2}, S1, 0, 0, 0)}
    [] Which = "twopolys" -> {C_(3, 1, 1, 3, {1}, S1, 1, 1, 3), C_(2, 1, 1, 4, {1}, S1, 1, 1, 4), C_(2, 1, 1, 4, {1}, S1, 1, 1, 3), C_(3, 1, 1, 2, {1}, S1, 1, 1, 4), C_(2, 1, 1, 1, {1}, S1, 1, 1, 5), C_(2, 1, 1, 5, {1}, S1, 1, 1, 1)}
    [] Which = "sequences" -> {C_(2, 3, 1, 2, {1}, S1, 0, 0, 0), C_(2, 4, 1, 2, {1}, S1, 0, 0, 0), C_(2, 3, 1, 3, {1}, S1, 0, 0, 0), C_(3, 3, 1, 2, {1}, S1, 0, 0, 0), C_(2, 2, 2, 2, {1}, S1, 0, 0, 0),
                               C_(2, 5, 1, 2, {1}, S1, 0, 0, 0), C_(2, 4, 1, 3, {1}, S1, 0, 0, 0), C_(2, 4, 2, 1, {1}, S1, 0, 0, 0), C_(2, 3, 2, 2, {1}, S1, 0, 0, 0)}
    [] Which = "powers" -> {C_(3, 1, 2, 2, {0, 1}, S1, 1, 1, 3), C_(2, 1, 2, 3, {0, 2}, S1, 1, 1, 4)}
    [] OTHER -> {}

VARIABLES cfg, k, s, f, g
vars == <<cfg, k, s, f, g>>
Entries(p, N) == [1..N -> 0..(p - 1)]
Init == /\ cfg \in Configs
        /\ k \in cfg.ks /\ s \in cfg.ss
        /\ f \in Entries(cfg.p, cfg.m * cfg.n * cfg.len)
        /\ g \in Entries(cfg.p, cfg.r2 * cfg.c2 * cfg.len2)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
RECURSIVE Cat(_, _)
Cat(t, i) == IF i > Len(t) THEN "" ELSE " " \o ToString(t[i]) \o Cat(t, i + 1)
Seq_(h) == [i \in 1..Len(h) |-> h[i]]
Export == PrintT("CASE" \o Cat(<<cfg.p, cfg.m, cfg.n, cfg.len, k>>, 1) \o Cat(<<Len(s)>>, 1) \o Cat(s, 1) \o Cat(f, 1) \o Cat(<<cfg.r2, cfg.c2, cfg.len2>>, 1) \o Cat(g, 1))
=============================================================================
