------------------------------- MODULE Tables -------------------------------
(***************************************************************************)
(* The known format names and character encodings, as byte strings.        *)
(* Written once from the SAS documentation / the reader's tables; part of  *)
(* the specification, never regenerated from the code.                     *)
(***************************************************************************)

DatetimeFormats == {
  <<66,56,54,48,49,68,78>>,
  <<66,56,54,48,49,68,84>>,
  <<66,56,54,48,49,68,88>>,
  <<66,56,54,48,49,68,90>>,
  <<66,56,54,48,49,76,88>>,
  <<68,65,84,69,65,77,80,77>>,
  <<68,65,84,69,84,73,77,69>>,
  <<68,84,68,65,84,69>>,
  <<68,84,77,79,78,89,89>>,
  <<68,84,87,75,68,65,84,88>>,
  <<68,84,89,69,65,82>>,
  <<69,56,54,48,49,68,78>>,
  <<69,56,54,48,49,68,84>>,
  <<69,56,54,48,49,68,88>>,
  <<69,56,54,48,49,68,90>>,
  <<69,56,54,48,49,76,88>>,
  <<77,68,89,65,77,80,77>>,
  <<84,79,68>>
  }
\* B8601DN B8601DT B8601DX B8601DZ B8601LX DATEAMPM DATETIME DTDATE DTMONYY DTWKDATX DTYEAR E8601DN E8601DT E8601DX E8601DZ E8601LX MDYAMPM TOD

DateFormats == {
  <<66,56,54,48,49,68,65>>,
  <<68,65,84,69>>,
  <<68,65,89>>,
  <<68,68,77,77,89,89>>,
  <<68,68,77,77,89,89,66>>,
  <<68,68,77,77,89,89,67>>,
  <<68,68,77,77,89,89,68>>,
  <<68,68,77,77,89,89,78>>,
  <<68,68,77,77,89,89,80>>,
  <<68,68,77,77,89,89,83>>,
  <<68,79,87,78,65,77,69>>,
  <<69,56,54,48,49,68,65>>,
  <<74,85,76,68,65,89>>,
  <<74,85,76,73,65,78>>,
  <<77,73,78,71,85,79>>,
  <<77,77,68,68,89,89>>,
  <<77,77,68,68,89,89,67>>,
  <<77,77,68,68,89,89,68>>,
  <<77,77,68,68,89,89,78>>,
  <<77,77,68,68,89,89,80>>,
  <<77,77,68,68,89,89,83>>,
  <<77,77,89,89>>,
  <<77,77,89,89,67>>,
  <<77,77,89,89,68>>,
  <<77,77,89,89,78>>,
  <<77,77,89,89,80>>,
  <<77,77,89,89,83>>,
  <<77,79,78,78,65,77,69>>,
  <<77,79,78,84,72>>,
  <<77,79,78,89,89>>,
  <<78,69,78,71,79>>,
  <<81,84,82>>,
  <<81,84,82,82>>,
  <<87,69,69,75,68,65,84,69>>,
  <<87,69,69,75,68,65,84,88>>,
  <<87,69,69,75,68,65,89>>,
  <<87,69,69,75,86>>,
  <<87,79,82,68,68,65,84,69>>,
  <<87,79,82,68,68,65,84,88>>,
  <<89,69,65,82>>,
  <<89,89,77,77>>,
  <<89,89,77,77,67>>,
  <<89,89,77,77,68>>,
  <<89,89,77,77,68,68>>,
  <<89,89,77,77,68,68,66>>,
  <<89,89,77,77,68,68,67>>,
  <<89,89,77,77,68,68,68>>,
  <<89,89,77,77,68,68,78>>,
  <<89,89,77,77,68,68,80>>,
  <<89,89,77,77,68,68,83>>,
  <<89,89,77,77,78>>,
  <<89,89,77,77,80>>,
  <<89,89,77,77,83>>,
  <<89,89,77,79,78>>,
  <<89,89,81>>,
  <<89,89,81,67>>,
  <<89,89,81,68>>,
  <<89,89,81,78>>,
  <<89,89,81,80>>,
  <<89,89,81,82>>,
  <<89,89,81,82,67>>,
  <<89,89,81,82,68>>,
  <<89,89,81,82,78>>,
  <<89,89,81,82,80>>,
  <<89,89,81,82,83>>,
  <<89,89,81,83>>
  }
\* B8601DA DATE DAY DDMMYY DDMMYYB DDMMYYC DDMMYYD DDMMYYN DDMMYYP DDMMYYS DOWNAME E8601DA JULDAY JULIAN MINGUO MMDDYY MMDDYYC MMDDYYD MMDDYYN MMDDYYP MMDDYYS MMYY MMYYC MMYYD MMYYN MMYYP MMYYS MONNAME MONTH MONYY NENGO QTR QTRR WEEKDATE WEEKDATX WEEKDAY WEEKV WORDDATE WORDDATX YEAR YYMM YYMMC YYMMD YYMMDD YYMMDDB YYMMDDC YYMMDDD YYMMDDN YYMMDDP YYMMDDS YYMMN YYMMP YYMMS YYMON YYQ YYQC YYQD YYQN YYQP YYQR YYQRC YYQRD YYQRN YYQRP YYQRS YYQS

TimeFormats == {
  <<84,73,77,69>>
  }
\* TIME

DefaultEncoding == <<87,73,78,68,79,87,83,45,49,50,53,50>>    \* WINDOWS-1252
EncodingTable == [c \in {20,28,29,30,31,32,33,34,35,36,37,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63,64,65,66,67,68,69,70,71,72,73,75,76,118,119,123,125,126,128,134,136,137,138,140,141,142,163,167,168,169,172,205,227,242,245,246,247,248} |->
  CASE c = 20 -> <<85,84,70,45,56>>
    [] c = 28 -> <<85,83,45,65,83,67,73,73>>
    [] c = 29 -> <<73,83,79,45,56,56,53,57,45,49>>
    [] c = 30 -> <<73,83,79,45,56,56,53,57,45,50>>
    [] c = 31 -> <<73,83,79,45,56,56,53,57,45,51>>
    [] c = 32 -> <<73,83,79,45,56,56,53,57,45,52>>
    [] c = 33 -> <<73,83,79,45,56,56,53,57,45,53>>
    [] c = 34 -> <<73,83,79,45,56,56,53,57,45,54>>
    [] c = 35 -> <<73,83,79,45,56,56,53,57,45,55>>
    [] c = 36 -> <<73,83,79,45,56,56,53,57,45,56>>
    [] c = 37 -> <<73,83,79,45,56,56,53,57,45,57>>
    [] c = 39 -> <<73,83,79,45,56,56,53,57,45,49,49>>
    [] c = 40 -> <<73,83,79,45,56,56,53,57,45,49,53>>
    [] c = 41 -> <<67,80,52,51,55>>
    [] c = 42 -> <<67,80,56,53,48>>
    [] c = 43 -> <<67,80,56,53,50>>
    [] c = 44 -> <<67,80,56,53,55>>
    [] c = 45 -> <<67,80,56,53,56>>
    [] c = 46 -> <<67,80,56,54,50>>
    [] c = 47 -> <<67,80,56,54,52>>
    [] c = 48 -> <<67,80,56,54,53>>
    [] c = 49 -> <<67,80,56,54,54>>
    [] c = 50 -> <<67,80,56,54,57>>
    [] c = 51 -> <<67,80,56,55,52>>
    [] c = 52 -> <<67,80,57,50,49>>
    [] c = 53 -> <<67,80,57,50,50>>
    [] c = 54 -> <<67,80,49,49,50,57>>
    [] c = 55 -> <<67,80,55,50,48>>
    [] c = 56 -> <<67,80,55,51,55>>
    [] c = 57 -> <<67,80,55,55,53>>
    [] c = 58 -> <<67,80,56,54,48>>
    [] c = 59 -> <<67,80,56,54,51>>
    [] c = 60 -> <<87,73,78,68,79,87,83,45,49,50,53,48>>
    [] c = 61 -> <<87,73,78,68,79,87,83,45,49,50,53,49>>
    [] c = 62 -> <<87,73,78,68,79,87,83,45,49,50,53,50>>
    [] c = 63 -> <<87,73,78,68,79,87,83,45,49,50,53,51>>
    [] c = 64 -> <<87,73,78,68,79,87,83,45,49,50,53,52>>
    [] c = 65 -> <<87,73,78,68,79,87,83,45,49,50,53,53>>
    [] c = 66 -> <<87,73,78,68,79,87,83,45,49,50,53,54>>
    [] c = 67 -> <<87,73,78,68,79,87,83,45,49,50,53,55>>
    [] c = 68 -> <<87,73,78,68,79,87,83,45,49,50,53,56>>
    [] c = 69 -> <<77,65,67,82,79,77,65,78>>
    [] c = 70 -> <<77,65,67,65,82,65,66,73,67>>
    [] c = 71 -> <<77,65,67,72,69,66,82,69,87>>
    [] c = 72 -> <<77,65,67,71,82,69,69,75>>
    [] c = 73 -> <<77,65,67,84,72,65,73>>
    [] c = 75 -> <<77,65,67,84,85,82,75,73,83,72>>
    [] c = 76 -> <<77,65,67,85,75,82,65,73,78,69>>
    [] c = 118 -> <<67,80,57,53,48>>
    [] c = 119 -> <<69,85,67,45,84,87>>
    [] c = 123 -> <<66,73,71,53,45,72,75,83,67,83>>
    [] c = 125 -> <<71,66,49,56,48,51,48>>
    [] c = 126 -> <<67,80,57,51,54>>
    [] c = 128 -> <<67,80,49,51,56,49>>
    [] c = 134 -> <<69,85,67,45,74,80>>
    [] c = 136 -> <<67,80,57,52,57>>
    [] c = 137 -> <<67,80,57,52,50>>
    [] c = 138 -> <<67,80,57,51,50>>
    [] c = 140 -> <<69,85,67,45,75,82>>
    [] c = 141 -> <<67,80,57,52,57>>
    [] c = 142 -> <<67,80,57,52,57>>
    [] c = 163 -> <<77,65,67,73,67,69,76,65,78,68>>
    [] c = 167 -> <<73,83,79,45,50,48,50,50,45,74,80>>
    [] c = 168 -> <<73,83,79,45,50,48,50,50,45,75,82>>
    [] c = 169 -> <<73,83,79,45,50,48,50,50,45,67,78>>
    [] c = 172 -> <<73,83,79,45,50,48,50,50,45,67,78,45,69,88,84>>
    [] c = 205 -> <<71,66,49,56,48,51,48>>
    [] c = 227 -> <<73,83,79,45,56,56,53,57,45,49,52>>
    [] c = 242 -> <<73,83,79,45,56,56,53,57,45,49,51>>
    [] c = 245 -> <<77,65,67,67,82,79,65,84,73,65,78>>
    [] c = 246 -> <<77,65,67,67,89,82,73,76,76,73,67>>
    [] c = 247 -> <<77,65,67,82,79,77,65,78,73,65>>
    [] c = 248 -> <<83,72,73,70,84,95,74,73,83,88,48,50,49,51>>]
EncodingOf(c) == IF c \in DOMAIN EncodingTable THEN EncodingTable[c] ELSE DefaultEncoding
RleName == <<83,65,83,89,90,67,82,76>>
RdcName == <<83,65,83,89,90,67,82,50>>
=============================================================================
