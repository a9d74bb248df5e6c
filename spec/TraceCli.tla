------------------------------ MODULE TraceCli ------------------------------
(***************************************************************************)
(* Conformance of the command line tool: each recorded run - the file      *)
(* system before, the command line, standard output, the exit status and   *)
(* the file system afterwards - must be a behaviour of Cli.tla over the    *)
(* real files' bytes.  One step per file named, then the comparison.       *)
(***************************************************************************)
EXTENDS Session

Sessions == ndJsonDeserialize(IOEnv.TRACE_SESSIONS)

\* contents: a file that was there (f > 0), a directory (-1), the full device (-2), or a text the specification describes (v)
Src(f) == [f |-> f, v |-> <<>>]
Txt(v) == [f |-> 0, v |-> v]

Desc(c, sink) == [rid |-> 1, k |-> "file", f |-> c.f, len |-> Len(Files[c.f].b), eager |-> FALSE, fail |-> -1, fk |-> "all",
                  inc |-> <<>>, exc |-> <<>>, sink |-> sink, file |-> TRUE]
\* one reader, all rows: [st, v]
AllOf(c, sink) ==
  LET o == Opened(Blank(Desc(c, sink))) IN
  IF o.st # "ok" THEN [st |-> o.st, v |-> <<>>]
  ELSE LET r == [o.r EXCEPT !.text = Header(o.r)]
           d == Drain([r EXCEPT !.st = R!Call(r.src, r.st, "all", 0)])
       IN [st |-> IF d.t = "ret" THEN "ok" ELSE d.t, v |-> d.r.text]
\* row by row, at most n of them
RECURSIVE RowByRow(_, _)
RowByRow(r, n) ==
  IF n = 0 THEN [st |-> "ok", v |-> r.text]
  ELSE LET d == Drain([r EXCEPT !.st = R!Call(r.src, r.st, "row", 0)]) IN
       IF d.t # "ret" THEN [st |-> d.t, v |-> <<>>]
       ELSE IF d.r.st.val = 0 THEN [st |-> "ok", v |-> d.r.text]
       ELSE RowByRow([d.r EXCEPT !.st = R!DoReturn(@)], n - 1)
RowsOf(c, n) ==
  LET o == Opened(Blank(Desc(c, "print"))) IN
  IF o.st # "ok" THEN [st |-> o.st, v |-> <<>>] ELSE RowByRow([o.r EXCEPT !.text = Header(o.r)], n)
Work(c, op, n) == IF op = "print" THEN RowsOf(c, n) ELSE AllOf(c, IF op = "csv" THEN "csvfile" ELSE "null")

ReadableOf(c, op, n) == IF c.f < 0 THEN "exc" ELSE Work(c, op, n).st
WritableOf(c) == c.f >= 0
CsvTextOf(c) == Txt(Work(c, "csv", 0).v)
PrintTextOf(c, n) == Work(c, "print", n).v
C == INSTANCE Cli WITH Readable <- ReadableOf, Writable <- WritableOf, CsvOf <- CsvTextOf, PrintOf <- PrintTextOf

-----------------------------------------------------------------------------
VARIABLES sid, l, s
vars == <<sid, l, s>>
Ev == Sessions[sid].ev[1]
NameFn(q) == [p \in {q[k].p : k \in 1..Len(q)} |-> (CHOOSE k \in 1..Len(q) : q[k].p = p)]
Names(q) == [p \in DOMAIN NameFn(q) |-> q[NameFn(q)[p]].i]
Name0 == Names(Ev.names0)
Node0 == [i \in 1..Len(Ev.node0) |-> Src(Ev.node0[i])]
Name1 == Names(Ev.names1)
\* the command line was understood: anything else fails before any file is touched
Understood == Ev.op \in {"print", "csv", "null"} /\ Ev.args # <<>> /\ (Ev.op = "print" => Ev.nok = 1)

Init == /\ sid \in 1..Len(Sessions) /\ l = 1
        /\ s = C!CliStart(Name0, Node0)

\* bytes of a node afterwards
After(i) == LET x == Ev.node1[i] IN IF x.same > 0 THEN Files[Ev.node0[x.same]].b ELSE x.b
Fits1(c, i) == IF c.f # 0 THEN LET x == Ev.node1[i] IN x.same > 0 /\ Ev.node0[x.same] = c.f ELSE TextMatches(c.v, After(i))

FreeNodes == {s.name[p] : p \in s.free \cap DOMAIN s.name}
Loose(p) == p \in s.free \/ (p \in DOMAIN s.name /\ s.name[p] \in FreeNodes)
Verdict ==
  LET failed == s.st # "run" \/ ~Understood
      kept == \A p \in DOMAIN s.name \ s.free : Loose(p) \/ p \in DOMAIN Name1
      new == \A p \in DOMAIN Name1 : Loose(p) \/ p \in DOMAIN s.name
      content == \A p \in (DOMAIN Name1 \cap DOMAIN s.name) : Loose(p) \/ Fits1(s.node[s.name[p]], Name1[p])
      inputs == \A p \in DOMAIN Name0 : p \in {Ev.args[j] : j \in 1..Len(Ev.args)} =>
                   p \in DOMAIN Name1 /\ Fits1(Node0[Name0[p]], Name1[p])
  IN IF Ev.rc < 0 /\ ~failed THEN "the process died"
     ELSE IF ~inputs THEN "an input was changed"
     ELSE IF ~kept THEN "a file is missing"
     ELSE IF ~new THEN "a file nobody asked for"
     ELSE IF ~content THEN "content of a file"
     ELSE IF failed THEN (IF s.st = "loose" \/ Ev.rc # 0 THEN "" ELSE "success reported for a run that failed")
     ELSE IF Ev.full = 1 /\ s.out # <<>> THEN (IF Ev.rc # 0 THEN "" ELSE "success reported though nothing was written")
     ELSE IF Ev.rc # 0 THEN "failure reported for a run that succeeded"
     ELSE IF Ev.full = 0 /\ ~TextMatches(s.out, Ev.out) THEN "standard output"
     ELSE ""

Work1 == /\ l > 0 /\ l <= Len(Ev.args) /\ s.st = "run" /\ Understood
         /\ s' = C!CliStep(s, Ev.op, Ev.n, Ev.args)
         /\ l' = l + 1 /\ UNCHANGED sid
Judge == /\ l > 0 /\ (l > Len(Ev.args) \/ s.st # "run" \/ ~Understood)
         /\ (IF Verdict = "" THEN PrintT(<<"ACCEPT", Sessions[sid].id, 1, IF s.st = "loose" THEN "loose" ELSE "">>)
             ELSE PrintT(<<"REJECT", Sessions[sid].id, 1, Verdict>>))
         /\ l' = -l /\ UNCHANGED <<sid, s>>
Next == Work1 \/ Judge
Spec == Init /\ [][Next]_vars
TraceView == <<sid, l>>
Kept == C!InputsKept(Name0, Node0, s, Ev.args)
=============================================================================
