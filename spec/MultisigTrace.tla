----- MODULE MultisigTrace -----
EXTENDS Multisig, TraceLib
=====
