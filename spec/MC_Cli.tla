------------------------------- MODULE MC_Cli -------------------------------
(***************************************************************************)
(* Every command over every small file system: three names, of which one   *)
(* is the csv name of another, leading to at most three nodes.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Good == 1  Bad == 2  Full == 3
Rd(c, o, m) == IF c \in {Good, 11} THEN "ok" ELSE IF c = Bad THEN "exc" ELSE "exc"
Wr(c) == c # Full
Csv(c) == 10 + c
Prn(c, n) == <<c, n>>
C == INSTANCE Cli WITH Readable <- Rd, Writable <- Wr, CsvOf <- Csv, PrintOf <- Prn

\* a.b  a.csv  d.e/f  d.e/f.csv  .x
Paths == {<<97, 46, 98>>, <<97, 46, 99, 115, 118>>, <<100, 46, 101, 47, 102>>, <<100, 46, 101, 47, 102, 46, 99, 115, 118>>, <<46, 120>>}
Subs == {q \in SUBSET Paths : Cardinality(q) \in 1..3}
VARIABLES name0, node0, op, n, args, s
vars == <<name0, node0, op, n, args, s>>

Init == /\ \E q \in Subs : name0 \in [q -> 1..2]
        /\ node0 \in [1..2 -> {Good, Bad, Full}]
        /\ op \in {"print", "csv", "null"} /\ n \in {-1, 1}
        /\ args \in UNION {[1..j -> Paths] : j \in 1..2}
        /\ s = C!CliStart(name0, node0)
Next == /\ s.st = "run" /\ s.k < Len(args)
        /\ s' = C!CliStep(s, op, n, args)
        /\ UNCHANGED <<name0, node0, op, n, args>>
Spec == Init /\ [][Next]_vars

Kept == C!InputsKept(name0, node0, s, args)
\* nothing but csv files appears, and only under csv names of files that were named
Named == \A p \in DOMAIN s.name \ DOMAIN name0 : op = "csv" /\ \E j \in 1..Len(args) : p = C!CsvName(args[j])
\* names that existed keep their node; nodes change only under csv, and only to the csv of a named file
Nodes == \A p \in DOMAIN name0 : s.name[p] = name0[p] /\ (s.node[s.name[p]] # node0[name0[p]] => op = "csv" /\ s.node[s.name[p]] \in {11, 21} /\ node0[name0[p]] # Full)
Names == /\ C!CsvName(<<97, 46, 98>>) = <<97, 46, 99, 115, 118>>
         /\ C!CsvName(<<100, 46, 101, 47, 102>>) = <<100, 46, 101, 47, 102, 46, 99, 115, 118>>
         /\ C!CsvName(<<46, 120>>) = <<46, 120, 46, 99, 115, 118>>
\* what a failed run leaves open is never an input, nor an input's node
FreeKept == \A p \in s.free : /\ p \notin {args[j] : j \in 1..Len(args)}
                             /\ p \in DOMAIN s.name => s.name[p] \notin C!InputNodes(s, args)
Done == s.st = "run" => s.k <= Len(args)
=============================================================================
