-------------------------------- MODULE Alter --------------------------------
(* Single changes to a stored transaction that the driver can make; each gives a different transaction. *)
Kinds == {"pay", "keyreg", "acfg", "axfer", "afrz", "appl", "cert"}
Common == {"sig", "nosig", "msig", "msig2", "msig0", "lsig", "lsig2", "auth", "noauth", "noad", "ad_close", "ad_aclose",
           "ad_srw", "ad_rrw", "ad_crw", "ad_swap", "ad_global", "ad_noglobal", "ad_local", "ad_local_ix", "ad_log", "ad_logs",
           "ad_inner", "ad_cfg", "ad_app", "sender", "nosender", "fee", "nofee", "fv", "fv0", "lv", "lv0", "fvlv", "note",
           "nonote", "note0", "grp", "nogrp", "lease", "nolease", "grplease", "rekey", "norekey"}
Own(k) ==
    CASE k = "pay" -> {"rcv", "norcv", "amt", "noamt", "close", "noclose", "rcvclose"}
      [] k = "keyreg" -> {"votePk", "novotePk", "selPk", "vf", "vl", "dil", "nonpart"}
      [] k = "acfg" -> {"asset", "total", "dec", "frozen", "unit", "name", "url", "unitname", "meta", "manager", "reserve",
           "freeze", "clawback"}
      [] k = "axfer" -> {"asset", "amt", "snd", "rcv", "close", "sndrcv"}
      [] k = "afrz" -> {"acct", "asset", "frozen"}
      [] k = "appl" -> {"app", "oc", "oc0", "args", "argsplit", "argempty", "accts", "acct1", "fapps", "fassets", "refs", "ls",
           "lsx", "gs", "lsgs", "ap", "cs", "apcs", "epp"}
      [] k = "cert" -> {"round"}
Alterations(k) == Common \cup Own(k)
=============================================================================
