---- MODULE ChainParams ----
(* protocol parameters of the upgrade suites, from the same file that      *)
(* makes the consensus.json the code reads                                 *)
EXTENDS Json, IOUtils
P == JsonDeserialize(IOEnv.PARAMS)
====
