----- MODULE OtsKeysTrace -----
EXTENDS OtsKeys, TraceLib
=====
