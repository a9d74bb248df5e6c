------------------------------ MODULE Compare ------------------------------
(***************************************************************************)
(* What logged properties, columns and cells are compared with: "" when    *)
(* they agree, the name of what differs otherwise.                         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils, Session

Sessions == ndJsonDeserialize(IOEnv.TRACE_SESSIONS)
\* which contents are compared; the structure (which event, when) always is
Facets == {x \in {"hdr", "meta", "cols", "types", "cells", "full", "idx", "pos", "text", "asked", "setprops", "agree"} :
             \E k \in 1..Len(Sessions[1].facets) : Sessions[1].facets[k] = x}
On(f) == f \in Facets

-----------------------------------------------------------------------------
EmptyHdr == [format |-> "32bits", endian |-> "unknown", platform |-> "unknown", encoding |-> <<>>, dataset |-> <<>>,
             ftype |-> <<>>, created |-> {<<>>}, modified |-> {<<>>}, release |-> <<>>, server |-> <<>>, ostype |-> <<>>,
             osname |-> <<>>, hlen |-> Zero4, plen |-> Zero4, pcount |-> Zero4]

\* ---- comparisons: "" when they agree, the name of what differs otherwise
HdrDiff(h, p) ==
  LET f(k) == k \in {"created", "modified"} IN
  IF ~On("hdr") THEN ""
  ELSE IF "format" \in DOMAIN p /\ p.format # h.format THEN "format" ELSE IF p.endian # h.endian THEN "endian"
  ELSE IF p.platform # h.platform THEN "platform" ELSE IF p.encoding # h.encoding THEN "encoding"
  ELSE IF p.dataset # h.dataset THEN "dataset" ELSE IF p.ftype # h.ftype THEN "ftype"
  ELSE IF ~Fits(p.created, h.created) THEN "created" ELSE IF ~Fits(p.modified, h.modified) THEN "modified"
  ELSE IF p.release # h.release THEN "release" ELSE IF p.server # h.server THEN "server"
  ELSE IF p.ostype # h.ostype THEN "ostype" ELSE IF p.osname # h.osname THEN "osname"
  ELSE IF p.hlen # h.hlen THEN "hlen" ELSE IF p.plen # h.plen THEN "plen"
  ELSE IF p.pcount # h.pcount THEN "pcount" ELSE ""
MetaDiff(q, p) ==
  IF ~On("meta") THEN ""
  ELSE IF p.compression # q.compression THEN "compression" ELSE IF p.creator # q.creator THEN "creator"
  ELSE IF p.proc # q.proc THEN "proc" ELSE IF p.rowlen # q.rowlen THEN "rowlen"
  ELSE IF p.rowcount # q.rowcount THEN "rowcount" ELSE IF p.ncols # q.ncols THEN "ncols"
  ELSE IF p.p1 # q.p1 THEN "p1" ELSE IF p.p2 # q.p2 THEN "p2" ELSE IF p.mixrows # q.mixrows THEN "mixrows"
  ELSE IF p.lcs # q.lcs THEN "lcs" ELSE IF p.lcp # q.lcp THEN "lcp" ELSE ""
ColDiff(c, o) ==
  IF On("cols") /\ o.name # c.name THEN "name" ELSE IF On("cols") /\ o.label # c.label THEN "label"
  ELSE IF On("cols") /\ o.format # c.format THEN "fmt"
  ELSE IF On("types") /\ o.type # c.type THEN "type" ELSE IF On("types") /\ "length" \in DOMAIN o /\ o.length # c.length THEN "length"
  ELSE ""
RECURSIVE ColsDiff(_, _, _)
ColsDiff(cs, os, k) ==
  IF k > Len(cs) THEN ""
  ELSE LET d == ColDiff(cs[k], os[k]) IN IF d = "" THEN ColsDiff(cs, os, k + 1) ELSE d
First(a, b) == IF a # "" THEN a ELSE b
PropsDiff(r, e) ==
  LET h == IF r.ph = "empty" THEN EmptyHdr ELSE r.hp
      q == IF r.ph = "empty" THEN MetaProps(M0, <<>>) ELSE MetaProps(r.src.m, r.cols)
  IN First(IF Len(e.cols) # Len(r.cols) THEN "number of columns" ELSE "",
           First(HdrDiff(h, e.props), First(MetaDiff(q, e.props), ColsDiff(r.cols, e.cols, 1))))

\* a small integer as a double
IsIntDouble(w, i) == ~IsNaN(w) /\ E(w) < 31 /\ (Expo(w) = 0 \/ E(w) >= 0 \/ i = 0)
                     /\ IntVal(IntBits(w), 1, 0) = (IF i < 0 THEN -i ELSE i)
                     /\ (i = 0 \/ Sign(w) = (IF i < 0 THEN 1 ELSE 0)) /\ (i = 0 => \A k \in 2..8 : w[k] = 0)
                     /\ \A j \in 1..5 : FracLimbs(w)[j] = 0
=============================================================================
