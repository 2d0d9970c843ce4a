----- MODULE TextTrace -----
EXTENDS Text, TraceLib
=====
