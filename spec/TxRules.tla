------------------------------- MODULE TxRules -------------------------------
(***************************************************************************)
(* The rules a transaction must obey on its own, under protocol limits p.  *)
(* tx is a record of header fields and of the fields of its kind; amounts  *)
(* and rounds are Big, sizes are numbers (a text [n, w] is n characters of *)
(* w bytes), addresses are labels ("zero": the zero address; "sink",       *)
(* "pool", "cert": the special ones).                                      *)
(***************************************************************************)
EXTENDS SM, Big

Size(x) == x.n * x.w
RECURSIVE Sum(_)
Sum(q) == IF q = << >> THEN 0 ELSE Head(q) + Sum(Tail(q))
SatEntries(s) == SatAdd(s.uint, s.bytes)
NoSchema == [uint |-> Zero, bytes |-> Zero]

PayOk(t, p) ==
    /\ t.close # "none" => t.close # t.sender
    /\ t.sender = "sink" => t.rcv = "pool" /\ t.close = "none"

(* keys are given all together or not at all, and rounds exactly when they are *)
Coherent(t) ==
    /\ Le(t.vf, t.vl)
    /\ \/ ~t.votePk /\ ~t.selPk /\ t.dil = Zero /\ t.vf = Zero /\ t.vl = Zero
       \/ /\ t.votePk /\ t.selPk /\ t.dil # Zero
          /\ t.vl # Zero
          /\ Le(t.vf, SatAdd(t.lv, One))
KeyregOk(t, p) ==
    /\ p.coherency => Coherent(t)
    /\ t.nonpart => p.nonpart /\ ~(t.votePk /\ t.selPk)

AssetOk(t, p) == p.asset
AssetConfigOk(t, p) ==
    /\ p.asset
    /\ Size(t.name) <= p.maxName /\ Size(t.unit) <= p.maxUnit /\ Size(t.url) <= p.maxUrl
    /\ t.dec <= p.maxDec

AppOk(t, p) ==
    LET create == t.app = 0
        pages  == 1 + (IF ~create /\ p.pagesOnUpdate THEN p.maxPages ELSE t.epp) IN
    /\ p.app
    /\ (t.ap > 0 \/ t.cs > 0) => create \/ t.oc = "update"
    /\ ~create => t.ls = NoSchema /\ t.gs = NoSchema /\ t.epp = 0
    /\ Len(t.args) <= p.maxArgs /\ Sum(t.args) <= p.maxArgLen
    /\ Len(t.accts) <= p.maxAccts
    /\ Len(t.fapps) <= p.maxApps
    /\ Len(t.fassets) <= p.maxAssets
    /\ Len(t.accts) + Len(t.fapps) + Len(t.fassets) <= p.maxRefs
    /\ t.epp <= p.maxPages
    /\ t.ap <= pages * p.maxProg /\ t.cs <= pages * p.maxProg
    /\ t.ap + t.cs <= pages * p.maxProgSum
    /\ Le(SatEntries(t.ls), BigOfNat(p.maxLocal))
    /\ Le(SatEntries(t.gs), BigOfNat(p.maxGlobal))

CertOk(t, p) ==
    /\ p.certRounds # 0
    /\ t.sender = "cert"
    /\ t.fee = Zero /\ t.note = 0
    /\ t.grp = "zero" /\ t.rekey = "zero" /\ t.lease = "zero"

KindOk(t, p) == CASE t.kind = "pay"    -> PayOk(t, p)
                  [] t.kind = "keyreg" -> KeyregOk(t, p)
                  [] t.kind = "acfg"   -> AssetConfigOk(t, p)
                  [] t.kind \in {"axfer", "afrz"} -> AssetOk(t, p)
                  [] t.kind = "appl"   -> AppOk(t, p)
                  [] t.kind = "cert"   -> CertOk(t, p)

CommonOk(t, p) ==
    /\ p.pooling \/ t.kind = "cert" \/ Ge(t.fee, p.minFee)
    /\ Le(t.fv, t.lv) /\ Le(MonusB(t.lv, t.fv), p.maxLife)
    /\ t.note <= p.maxNote
    /\ t.sender \notin {"zero", "pool"}
    /\ t.lease # "zero" => p.leases
    /\ t.grp # "zero" => p.groups
    /\ t.rekey # "zero" => p.rekeying

WellFormed(t, p) == CommonOk(t, p) /\ KindOk(t, p)

Outcomes(s, o) == Out(s, [ok |-> IF WellFormed(o.tx, o.p) THEN "ok" ELSE "err"])
Start(o) == "ready"
Do(o) == \E x \in Outcomes(st, o) : st' = x.st /\ op' = o /\ res' = x.res
=============================================================================
