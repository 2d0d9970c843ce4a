----- MODULE AlgokeyTrace -----
EXTENDS Algokey, TraceLib
=====
