----------------------------- MODULE MC_Filter -----------------------------
(***************************************************************************)
(* Column filters over every column list and every pair of name lists of a *)
(* small universe: the laws of F01, stated without SasFile's Accepts.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SasFile
CONSTANTS Names, Unknown, MaxCols
VARIABLES cols, inc, exc
vars == <<cols, inc, exc>>
\* the columns as an observer sees them; the position identifies each
ColSeq == [k \in 1..Len(cols) |-> [name |-> cols[k], at |-> k]]
Kept(f) == SelectSeq(ColSeq, LAMBDA c : Accepts(f, c.name))
F(k) == [k |-> k, inc |-> inc, exc |-> exc]

Init == cols = <<>> /\ inc = {} /\ exc = {}
Next == \/ \E n \in Names : Len(cols) < MaxCols /\ cols' = Append(cols, n) /\ UNCHANGED <<inc, exc>>
        \/ \E n \in Names \cup {Unknown} : inc' = inc \cup {n} /\ UNCHANGED <<cols, exc>>
        \/ \E n \in Names \cup {Unknown} : exc' = exc \cup {n} /\ UNCHANGED <<cols, inc>>
Spec == Init /\ [][Next]_vars

Ats(q) == [k \in 1..Len(q) |-> q[k].at]
InOrder(q) == \A i, j \in 1..Len(q) : i < j => q[i].at < q[j].at
Order == \A k \in {"inc", "exc", "both", "user", "all"} : InOrder(Kept(F(k)))
OnlyListed == {k \in 1..Len(cols) : cols[k] \in inc} = {Kept(F("inc"))[j].at : j \in 1..Len(Kept(F("inc")))}
OnlyUnlisted == {k \in 1..Len(cols) : cols[k] \notin exc} = {Kept(F("exc"))[j].at : j \in 1..Len(Kept(F("exc")))}
IncludeDecides == inc # {} => Ats(Kept(F("both"))) = Ats(Kept(F("inc")))
ElseExclude == inc = {} => Ats(Kept(F("both"))) = Ats(Kept(F("exc")))
EmptyKeepsAll == (inc = {} /\ exc = {}) => Len(Kept(F("both"))) = Len(cols)
UnknownHarmless == Ats(Kept([F("inc") EXCEPT !.inc = @ \cup {Unknown}])) = Ats(Kept(F("inc")))
NoFilter == Kept(F("all")) = ColSeq
=============================================================================
