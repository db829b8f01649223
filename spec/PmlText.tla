------------------------------ MODULE PmlText ------------------------------
(* Text output for Magma and Sage (C24). The recorded text is a sequence of  *)
(* tokens [t, v, d]: t = "n" (integer literal with digits d), "i"            *)
(* (identifier v), "s" (symbol v). It is read with the semantics of the      *)
(* target language by a recursive-descent reader; the resulting value must   *)
(* be the value that was written.                                            *)
EXTENDS Algebra

TextOps == {"tx.val", "tx.init"}

Is(T, i, s) == i <= Len(T) /\ T[i].t = "s" /\ T[i].v = s
Id(T, i, s) == i <= Len(T) /\ T[i].t = "i" /\ T[i].v = s
RECURSIVE Horner(_, _, _)
Horner(m, d, n) == IF n = 0 THEN Zero(m) ELSE FAdd(m, FMul(m, Horner(m, d, n - 1), FInt(m, 10)), FInt(m, d[n]))
Num(m, d) == Horner(m, d, Len(d))
RECURSIVE IntOf(_, _)
IntOf(d, n) == IF n = 0 THEN 0 ELSE 10 * IntOf(d, n - 1) + d[n]

\* readings: [k, x, i]: kind ("poly", "list", "mat", "bad"), value, next position
Bad == [k |-> "bad", x |-> <<>>, i |-> 0]
RP(p, i) == [k |-> "poly", x |-> p, i |-> i]
RECURSIVE PPowInt(_, _, _)
PPowInt(m, f, n) == IF n = 0 THEN PConst(m, One(m)) ELSE PMul(m, f, PPowInt(m, f, n - 1))

\* c: [m (ring of coefficients), var (name of the indeterminate), lang, pd (digits of the modulus)]
RECURSIVE TExpr(_, _, _), TExprTail(_, _, _), TTerm(_, _, _), TTermTail(_, _, _), TFactor(_, _, _), TAtom(_, _, _), TList(_, _, _)
Close(T, r, s) == IF r.k # "bad" /\ Is(T, r.i, s) THEN [r EXCEPT !.i = @ + 1] ELSE Bad
Coerce(c, r) ==      \* coefficient list or polynomial, read as a polynomial
  IF r.k = "poly" THEN r
  ELSE IF r.k = "list" /\ \A j \in 1..Len(r.x) : r.x[j].k = "poly" /\ Len(r.x[j].x) <= 1
       THEN RP(PNorm(c.m, [j \in 1..Len(r.x) |-> Coef(c.m, r.x[j].x, 0)]), r.i)
  ELSE Bad
TAtom(c, T, i) ==
  IF i > Len(T) THEN Bad
  ELSE IF T[i].t = "n" THEN RP(PConst(c.m, Num(c.m, T[i].d)), i + 1)
  ELSE IF Is(T, i, "(") THEN Close(T, TExpr(c, T, i + 1), ")")
  ELSE IF Is(T, i, "[") THEN (IF Is(T, i + 1, "]") THEN [k |-> "list", x |-> <<>>, i |-> i + 2] ELSE TList(c, T, i + 1))
  ELSE IF Id(T, i, "Matrix") /\ Is(T, i + 1, "(")
       THEN LET ring == Id(T, i + 2, "GF")
                ok == ring => Is(T, i + 3, "(") /\ i + 4 <= Len(T) /\ T[i + 4].t = "n" /\ T[i + 4].d = c.pd /\ Is(T, i + 5, ")") /\ Is(T, i + 6, ",")
                r == IF ok THEN TAtom(c, T, IF ring THEN i + 7 ELSE i + 2) ELSE Bad
                q == Close(T, r, ")")
            IN IF q.k = "list" /\ \A j \in 1..Len(q.x) : q.x[j].k = "list" THEN [q EXCEPT !.k = "mat"] ELSE Bad
  ELSE IF c.lang = "magma" /\ Id(T, i, "Parent")
       THEN (IF Is(T, i + 1, "(") /\ Id(T, i + 2, c.var) /\ Is(T, i + 3, ")") /\ Is(T, i + 4, "!") THEN Coerce(c, TAtom(c, T, i + 5)) ELSE Bad)
  ELSE IF Id(T, i, c.ring) /\ Is(T, i + 1, IF c.lang = "magma" THEN "!" ELSE "(")
       THEN Coerce(c, TAtom(c, T, IF c.lang = "magma" THEN i + 2 ELSE i + 1))
  ELSE IF Id(T, i, c.var)
       THEN (IF Is(T, i + 1, ".")
             THEN (IF c.lang = "sage" /\ Id(T, i + 2, "parent") /\ Is(T, i + 3, "(") /\ Is(T, i + 4, ")") /\ Is(T, i + 5, "(") THEN Coerce(c, TAtom(c, T, i + 5)) ELSE Bad)
             ELSE RP(PMono(c.m, 1), i + 1))
  ELSE Bad
TList(c, T, i) ==     \* at least one element, up to "]"
  LET r == TExpr(c, T, i)
  IN IF r.k = "bad" THEN Bad
     ELSE IF Is(T, r.i, "]") THEN [k |-> "list", x |-> <<r>>, i |-> r.i + 1]
     ELSE IF Is(T, r.i, ",") THEN LET q == TList(c, T, r.i + 1) IN IF q.k = "bad" THEN Bad ELSE [q EXCEPT !.x = <<r>> \o @]
     ELSE Bad
TFactor(c, T, i) ==
  IF Is(T, i, "-") THEN LET r == TFactor(c, T, i + 1) IN IF r.k = "poly" THEN [r EXCEPT !.x = PNeg(c.m, @)] ELSE Bad
  ELSE LET a == TAtom(c, T, i)
       IN IF a.k # "bad" /\ Is(T, a.i, "^")
          THEN (IF a.k = "poly" /\ a.i + 1 <= Len(T) /\ T[a.i + 1].t = "n" /\ Len(T[a.i + 1].d) <= 4
                THEN RP(PPowInt(c.m, a.x, IntOf(T[a.i + 1].d, Len(T[a.i + 1].d))), a.i + 2) ELSE Bad)
          ELSE a
TTermTail(c, T, r) ==
  IF r.k # "bad" /\ Is(T, r.i, "*")
  THEN LET q == TFactor(c, T, r.i + 1)
       IN IF r.k = "poly" /\ q.k = "poly" THEN TTermTail(c, T, RP(PMul(c.m, r.x, q.x), q.i)) ELSE Bad
  ELSE r
TTerm(c, T, i) == TTermTail(c, T, TFactor(c, T, i))
TExprTail(c, T, r) ==
  IF r.k # "bad" /\ (Is(T, r.i, "+") \/ Is(T, r.i, "-"))
  THEN LET q == TTerm(c, T, r.i + 1)
       IN IF r.k = "poly" /\ q.k = "poly"
          THEN TExprTail(c, T, RP(IF Is(T, r.i, "+") THEN PAdd(c.m, r.x, q.x) ELSE PSub(c.m, r.x, q.x), q.i)) ELSE Bad
  ELSE r
TExpr(c, T, i) == TExprTail(c, T, TTerm(c, T, i))

\* the written value as a reading
RECURSIVE Same(_, _)
Same(r, x) == CASE r.k = "poly" -> r.x = x
                [] r.k \in {"list", "mat"} -> Len(r.x) = Len(x) /\ \A j \in 1..Len(x) : Same(r.x[j], x[j])
                [] OTHER -> FALSE
ZVal(q, z) == LET v == Num(q, z.d) IN IF z.s THEN FNeg(q, v) ELSE v
\* what must be read, with coefficients in the ring q
Denoted(q, e) ==
  CASE e.kind = "vec" -> [j \in 1..Len(e.x) |-> PConst(q, e.x[j])]
    [] e.kind = "mat" -> [i \in 1..e.x.r |-> [j \in 1..e.x.c |-> PConst(q, e.x.e[i][j])]]
    [] e.kind = "pmat" -> [i \in 1..e.x.r |-> [j \in 1..e.x.c |-> e.x.e[i][j]]]
    [] e.kind \in {"poly", "pvec"} -> e.x
    [] e.kind = "zvec" -> [j \in 1..Len(e.x) |-> PConst(q, ZVal(q, e.x[j]))]
    [] e.kind = "zpoly" -> PNorm(q, [j \in 1..Len(e.x) |-> ZVal(q, e.x[j])])
KindOf(kind) == IF kind \in {"vec", "zvec", "pvec"} THEN "list" ELSE IF kind \in {"mat", "pmat"} THEN "mat" ELSE "poly"

\* name := expr;   (Magma)      name = expr, newline   (Sage)
HeadOk(e) == ~e.assign \/ (Id(e.tok, 1, e.name) /\ Is(e.tok, 2, IF e.lang = "magma" THEN ":=" ELSE "="))
TailOk(e, i) == IF e.assign /\ e.lang = "magma" THEN Is(e.tok, i, ";") /\ i = Len(e.tok)
                ELSE i = Len(e.tok) + 1 /\ (e.assign => e.nl)
ReadIn(q, e) ==
  LET c == [m |-> q, var |-> e.var, lang |-> e.lang, pd |-> e.pd, ring |-> IF e.kind = "zpoly" THEN "UZ" ELSE "U"]
      r == TExpr(c, e.tok, IF e.assign THEN 3 ELSE 1)
  IN r.k = KindOf(e.kind) /\ Same(r, Denoted(q, e)) /\ TailOk(e, r.i)

\* integers are read modulo two primes whose product exceeds all recorded values
ZPrimes == <<<<1073741823, 1073741731>>, <<1073741823, 1073741717>>>>

Toks(T) == [i \in 1..Len(T) |-> IF T[i].t = "n" THEN "#" ELSE T[i].v]
InitText(e) ==
  CASE e.kind = "k"  -> IF e.lang = "magma" THEN <<"k", ":=", "GF", "(", "#", ")", ";">> ELSE <<"k", "=", "GF", "(", "#", ")">>
    [] e.kind = "U"  -> IF e.lang = "magma" THEN <<"U", "<", "x", ">", ":=", "PolynomialRing", "(", "k", ")", ";">> ELSE <<"U", ".", "<", "x", ">", "=", "PolynomialRing", "(", "k", ")">>
    [] e.kind = "UZ" -> IF e.lang = "magma" THEN <<"UZ", "<", "XX", ">", ":=", "PolynomialRing", "(", "Integers", "(", ")", ")", ";">> ELSE <<"UZ", ".", "<", "XX", ">", "=", "PolynomialRing", "(", "Integers", "(", ")", ")">>

TextPost(m, e) ==
  CASE e.op = "tx.val" -> HeadOk(e) /\ IF e.kind \in {"zvec", "zpoly"} THEN \A j \in 1..2 : ReadIn(ZPrimes[j], e) ELSE ReadIn(m, e)
    [] e.op = "tx.init" -> Toks(e.tok) = InitText(e) /\ e.nl /\ \A i \in 1..Len(e.tok) : e.tok[i].t = "n" => e.tok[i].d = e.pd
=============================================================================
