----- MODULE TxRulesTrace -----
EXTENDS TxRules, TraceLib
=====
