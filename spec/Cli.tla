-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line tool as a machine over a file system.  Names are byte  *)
(* strings; name[p] is the node a name leads to (several names may lead to *)
(* one node: links), node[i] its content.  One action per file named on    *)
(* the command line, in order.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, Bytes

CONSTANTS Readable(_, _, _), \* content, command, rows -> "ok" | "exc" | "loose": does it open and read as far as that?
          Writable(_),       \* can something be written to a node with that content?
          CsvOf(_),          \* content -> the content of its csv file
          PrintOf(_, _)      \* content, at most that many rows (-1: all) -> what print writes

Dot == 46   Slash == 47
CsvExt == <<46, 99, 115, 118>>
RECURSIVE LastOf(_, _, _)
LastOf(p, c, i) == IF i = 0 \/ p[i] = c THEN i ELSE LastOf(p, c, i - 1)
\* the last component of a name, and the name with its extension replaced
Base(p) == LastOf(p, Slash, Len(p)) + 1
CsvName(p) ==
  LET b == Base(p)
      d == LastOf(p, Dot, Len(p))
      special == SubSeq(p, b, Len(p)) \in {<<Dot>>, <<Dot, Dot>>}
  IN (IF d > b /\ ~special THEN SubSeq(p, 1, d - 1) ELSE p) \o CsvExt

\* state: name, node (functions), out (standard output), k (files done), st "run" | "fail" | "loose" | "done",
\*        free (names whose content is no longer determined)
CliStart(name, node) == [name |-> name, node |-> node, out |-> <<>>, k |-> 0, st |-> "run", free |-> {}]

InputNodes(s, args) == {s.name[args[j]] : j \in {i \in 1..Len(args) : args[i] \in DOMAIN s.name}}
Fresh(s) == CHOOSE i \in 1..(1 + Len(s.node)) : i \notin 1..Len(s.node)
Written(s, p, c) ==
  IF p \in DOMAIN s.name THEN [s EXCEPT !.node = [@ EXCEPT ![s.name[p]] = c]]
  ELSE [s EXCEPT !.name = [q \in DOMAIN s.name \cup {p} |-> IF q = p THEN Len(s.node) + 1 ELSE s.name[q]],
                 !.node = Append(@, c)]
\* would writing o overwrite an input?
Hits(s, args, o) == \/ o \in {args[j] : j \in 1..Len(args)}
                    \/ o \in DOMAIN s.name /\ s.name[o] \in InputNodes(s, args)
\* the run fails at the file after the first s.k: whether it says so and goes on, or stops, what the files from here on
\* would have been written to is no longer determined - except that no input is among it
Fail(s, why, op, args) ==
  [s EXCEPT !.st = why,
            !.free = IF op # "csv" THEN @
                     ELSE @ \cup {CsvName(args[j]) : j \in {i \in (s.k + 1)..Len(args) : ~Hits(s, args, CsvName(args[i]))}}]

\* the next file is processed
CliStep(s, op, n, args) ==
  LET p == args[s.k + 1]
      missing == p \notin DOMAIN s.name
      c == s.node[s.name[p]]
      rd == IF missing THEN "exc" ELSE Readable(c, op, n)
      o == CsvName(p)
      hit == Hits(s, args, o)
      next == [s EXCEPT !.k = @ + 1]
      bad == IF rd = "loose" THEN "loose" ELSE "fail"
  IN CASE op = "print" -> IF rd # "ok" THEN Fail(s, bad, op, args) ELSE [next EXCEPT !.out = @ \o PrintOf(c, n)]
       [] op = "null"  -> IF rd # "ok" THEN Fail(s, bad, op, args) ELSE next
       [] op = "csv"   -> IF hit THEN Fail(s, "fail", op, args)              \* it would overwrite an input
                          ELSE IF rd # "ok" THEN Fail(s, bad, op, args)
                          ELSE IF o \in DOMAIN s.name /\ ~Writable(s.node[s.name[o]]) THEN Fail(s, "fail", op, args)
                          ELSE Written(next, o, CsvOf(c))

\* what every step must respect: no input changes its content, whatever it is called
InputsKept(name0, node0, s, args) ==
  \A j \in 1..Len(args) : args[j] \in DOMAIN name0 =>
     args[j] \in DOMAIN s.name /\ s.name[args[j]] = name0[args[j]] /\ s.node[s.name[args[j]]] = node0[name0[args[j]]]
=============================================================================
