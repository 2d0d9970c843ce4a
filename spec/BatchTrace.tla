----- MODULE BatchTrace -----
EXTENDS Batch, TraceLib
=====
