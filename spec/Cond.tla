-------------------------------- MODULE Cond --------------------------------
(* Conditions in SQL three-valued logic over the columns k1, w1, w2 of a    *)
(* record <<k1, w1, w2>>.  A condition is                                   *)
(*   [op, col, args]  with op a comparison, pattern, range, membership or   *)
(*                    null operator,                                        *)
(*   [op, sub]        with op "and" or "or" and at least one sub-condition, *)
(*   [op |-> "none"]  no condition.                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

T == 1
F == 0
U == 2   \* unknown
NULL == -1

Field(r, col) == CASE col = "k1" -> r[1] [] col = "k2" -> r[4] [] col = "w1" -> r[2] [] col = "w2" -> r[3]

Neg(x) == IF x = U THEN U ELSE 1 - x
AndV(x, y) == IF x = F \/ y = F THEN F ELSE IF x = U \/ y = U THEN U ELSE T
OrV(x, y)  == IF x = T \/ y = T THEN T ELSE IF x = U \/ y = U THEN U ELSE F
B(b) == IF b THEN T ELSE F

Cmp(op, x, y) ==
  IF x = NULL \/ y = NULL THEN U
  ELSE CASE op = "eq" -> B(x = y) [] op = "ne" -> B(x # y)
         [] op = "gt" -> B(x > y) [] op = "ge" -> B(x >= y)
         [] op = "lt" -> B(x < y) [] op = "le" -> B(x <= y)

Member(x, l) ==
  IF l = <<>> THEN F
  ELSE IF x = NULL THEN U
  ELSE IF \E i \in 1..Len(l) : l[i] = x THEN T
  ELSE IF \E i \in 1..Len(l) : l[i] = NULL THEN U ELSE F

\* a pattern is the text of a token (itself) or anything
AnyP == 99
LikeV(x, p) == IF x = NULL \/ p = NULL THEN U ELSE IF p = AnyP THEN T ELSE B(x = p)

BetweenV(x, a, b) == AndV(Cmp("ge", x, a), Cmp("le", x, b))

RECURSIVE Eval(_, _)
Eval(e, r) ==
  CASE e.op = "none" -> T
    [] e.op = "and" -> FoldLeft(LAMBDA acc, x : AndV(acc, Eval(x, r)), T, e.sub)
    [] e.op = "or"  -> FoldLeft(LAMBDA acc, x : OrV(acc, Eval(x, r)), F, e.sub)
    [] OTHER ->
       LET x == Field(r, e.col) IN
       CASE e.op \in {"eq", "ne", "gt", "ge", "lt", "le"} -> Cmp(e.op, x, e.args[1])
         [] e.op = "like"     -> LikeV(x, e.args[1])
         [] e.op = "nlike"    -> Neg(LikeV(x, e.args[1]))
         [] e.op = "between"  -> BetweenV(x, e.args[1], e.args[2])
         [] e.op = "nbetween" -> Neg(BetweenV(x, e.args[1], e.args[2]))
         [] e.op = "in"       -> Member(x, e.args)
         [] e.op = "nin"      -> Neg(Member(x, e.args))
         [] e.op = "isnull"   -> B(x = NULL)
         [] e.op = "notnull"  -> B(x # NULL)

None == [op |-> "none"]
Atom(op, col, args) == [op |-> op, col |-> col, args |-> args]
And(s) == [op |-> "and", sub |-> s]
Or(s)  == [op |-> "or", sub |-> s]

Sel(e, rows) == {r \in rows : Eval(e, r) = T}

\* the conditions on one column with arguments from a set of tokens
Seqs(S, n) == UNION {[1..m -> S] : m \in 0..n}
AtomsOf(col, Toks, Pats) ==
     {Atom(op, col, <<x>>) : op \in {"eq", "ne", "gt", "ge", "lt", "le"}, x \in Toks}
  \cup {Atom(op, col, <<x, y>>) : op \in {"between", "nbetween"}, x \in Toks, y \in Toks}
  \cup {Atom(op, col, l) : op \in {"in", "nin"}, l \in Seqs(Toks, 2)}
  \cup {Atom(op, col, <<>>) : op \in {"isnull", "notnull"}}
  \cup {Atom(op, col, <<p>>) : op \in {"like", "nlike"}, p \in Pats}

----------------------------------------------------------------------------
(* Ordering: o is a sequence of [col, asc].  NULLs come first or last in an *)
(* ascending order, the other way round in a descending one.               *)
Norm(x, nf, big) == IF x = NULL THEN (IF nf THEN -1 ELSE big) ELSE x

RECURSIVE Before(_, _, _, _)
Before(o, r, s, nf) ==
  IF o = <<>> THEN FALSE
  ELSE LET x == Norm(Field(r, o[1].col), nf, 1000)
           y == Norm(Field(s, o[1].col), nf, 1000)
       IN IF x = y THEN Before(Tail(o), r, s, nf)
          ELSE IF o[1].asc THEN x < y ELSE x > y

\* how many of the records come strictly before r
Rank(o, r, rows, nf) == Cardinality({s \in rows : Before(o, s, r, nf)})
=============================================================================
