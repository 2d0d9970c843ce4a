----- MODULE AccountTrace -----
EXTENDS Account, TraceLib
=====
