----- MODULE GenesisTrace -----
EXTENDS Genesis, TraceLib
=====
