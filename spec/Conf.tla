-------------------------------- MODULE Conf --------------------------------
(***************************************************************************)
(* A node's configuration files.  Settings are given by the values that    *)
(* differ from the defaults, as a record from setting to a number naming   *)
(* the value (the entry "_" only keeps the record from being empty).       *)
(* File names are sequences of characters.                                 *)
(*                                                                         *)
(* st.file, st.book: what the data directory holds; st.root: the global    *)
(* directory in use ("" when none was chosen yet), st.there: whether the   *)
(* default one exists.                                                     *)
(***************************************************************************)
EXTENDS SM

Missing == [k |-> "none"]
Broken == [k |-> "broken"]
Holding(x) == [k |-> "ok", x |-> x]
Fresh == [file |-> Missing, book |-> Missing, root |-> "", there |-> FALSE]

-----------------------------------------------------------------------------
(* Settings *)
Forced == {"archival", "enable_ledger_service", "enable_block_service"}
(* whoever listens for connections also serves the whole chain *)
Relay(x) == IF "net_address" \in DOMAIN x
            THEN [ f \in DOMAIN x \cup Forced |-> IF f \in Forced THEN 1 ELSE x[f] ]
            ELSE x
Bit(n, b) == (n \div b) % 2 = 1
Flags(d, c) == [srv |-> Bit(d, 1), relay |-> Bit(d, 2), telemetry |-> Bit(d, 4),
                cert |-> ~ Bit(c, 1), payset |-> ~ Bit(c, 2), sigs |-> Bit(c, 4), apply |-> Bit(c, 8)]
(* addresses to ask for peers: the parts of the setting that are not empty, for this network *)
RECURSIVE Join(_, _)
Join(q, net) == IF q = << >> THEN "" ELSE (IF Head(q) = "N" THEN net ELSE Head(q)) \o Join(Tail(q), net)
Dns(o) == IF o.id = <<<<"N", ".algorand.network">>>> /\ o.net \in {"devnet", "betanet"}
          THEN << o.net \o ".algodev.network" >>
          ELSE LET q == SelectSeq(o.id, LAMBDA e : e # << >>) IN [ i \in DOMAIN q |-> Join(q[i], o.net) ]

-----------------------------------------------------------------------------
(* Names of key files *)
Dot == "."
RootSuffix == <<".", "r", "o", "o", "t", "k", "e", "y">>
PartWord == <<"p", "a", "r", "t", "k", "e", "y">>
EndsIn(f, x) == Len(f) >= Len(x) /\ SubSeq(f, Len(f) - Len(x) + 1, Len(f)) = x
IsRoot(f) == EndsIn(f, RootSuffix)
RootAccount(f) == IF IsRoot(f) THEN SubSeq(f, 1, Len(f) - Len(RootSuffix)) ELSE f

Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Dots(f) == { i \in DOMAIN f : f[i] = Dot }
D3(f) == Max(Dots(f))
D2(f) == Max(Dots(f) \ {D3(f)})
D1(f) == Max(Dots(f) \ {D3(f), D2(f)})
Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
ValueOf(c) == CHOOSE i \in 1 .. 10 : Digits[i] = c
IsDigit(c) == \E i \in 1 .. 10 : Digits[i] = c
(* numbers are written without leading zeros *)
RECURSIVE LeqFrom(_, _, _)
LeqFrom(x, y, i) == IF i > Len(x) THEN TRUE
                    ELSE IF x[i] = y[i] THEN LeqFrom(x, y, i + 1) ELSE ValueOf(x[i]) < ValueOf(y[i])
Leq(x, y) == Len(x) < Len(y) \/ (Len(x) = Len(y) /\ LeqFrom(x, y, 1))
Top == <<"1", "8", "4", "4", "6", "7", "4", "4", "0", "7", "3", "7", "0", "9", "5", "5", "1", "6", "1", "5">>
IsNumber(x) == x # << >> /\ (\A i \in DOMAIN x : IsDigit(x[i])) /\ (x[1] = "0" => Len(x) = 1) /\ Leq(x, Top)
IsPart(f) ==
    /\ Cardinality(Dots(f)) >= 3
    /\ SubSeq(f, D3(f) + 1, Len(f)) = PartWord
    /\ LET a == SubSeq(f, D1(f) + 1, D2(f) - 1)
           b == SubSeq(f, D2(f) + 1, D3(f) - 1)
       IN  IsNumber(a) /\ IsNumber(b) /\ Leq(a, b)
PartAccount(f) == IF IsPart(f) THEN SubSeq(f, 1, D1(f) - 1) ELSE f
RootName(acct) == acct \o RootSuffix
PartName(acct, a, b) == acct \o <<Dot>> \o a \o <<Dot>> \o b \o <<Dot>> \o PartWord
Kind(f, acct) == [root |-> IsRoot(f), part |-> IsPart(f), rootof |-> RootAccount(f), partof |-> PartAccount(f),
                  isroot |-> RootName(acct) = f, ispart |-> IsPart(f) /\ PartAccount(f) = acct]

-----------------------------------------------------------------------------
Yes(x) == [ok |-> TRUE, v |-> x]
No == [ok |-> FALSE]
Ask(x, F(_)) == IF x.k = "ok" THEN Yes(F(x.x)) ELSE No
Same(x) == x
Outcomes(s, o) ==
    CASE o.a = "write" -> Out([s EXCEPT !.file = Holding(o.set)], TRUE)          \* someone edits the file
      [] o.a = "save" -> Out([s EXCEPT !.file = Holding(o.set)], TRUE)
      [] o.a = "load" -> Out(s, Ask(s.file, Relay))
      [] o.a = "resave" ->                                                      \* load, then save what was loaded
           IF s.file.k = "ok" THEN Out([s EXCEPT !.file = Holding(Relay(s.file.x))], TRUE) ELSE Out(s, FALSE)
      [] o.a = "spoil" -> Out([s EXCEPT !.file = Broken], TRUE)
      [] o.a = "cut" -> Out([s EXCEPT !.file = IF @.k = "none" THEN Missing ELSE Broken], TRUE)
      [] o.a = "remove" -> Out([s EXCEPT !.file = Missing], TRUE)
      [] o.a = "savebook" -> Out([s EXCEPT !.book = Holding(o.q)], TRUE)
      [] o.a = "loadbook" -> Out(s, Ask(s.book, Same))
      [] o.a = "spoilbook" -> Out([s EXCEPT !.book = Broken], TRUE)
      [] o.a = "removebook" -> Out([s EXCEPT !.book = Missing], TRUE)
      [] o.a = "nowhere" -> Out(s, FALSE)                                       \* saving under no such directory or variable
      [] o.a = "flags" -> Out(s, Flags(o.d, o.c))
      [] o.a = "dns" -> Out(s, Yes(Dns(o)))
      [] o.a = "kind" -> Out(s, Kind(o.f, o.acct))
      [] o.a = "names" -> Out(s, [root |-> RootName(o.acct), part |-> PartName(o.acct, o.first, o.last)])
      [] o.a = "setroot" -> Out([s EXCEPT !.root = o.r], Yes(s.root))
      [] o.a = "getroot" -> LET r == IF s.root = "" THEN "home" ELSE s.root
                                t == s.there \/ s.root = ""
                            IN  Out([s EXCEPT !.root = r, !.there = t], [ok |-> TRUE, v |-> r, there |-> t])
      [] o.a = "mkhome" -> Out([s EXCEPT !.there = TRUE], TRUE)
      [] o.a = "rmhome" -> Out([s EXCEPT !.there = FALSE], TRUE)

Start(o) == Fresh
Do(o) == \E x \in Outcomes(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
