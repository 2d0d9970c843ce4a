----- MODULE PartTrace -----
EXTENDS Part, TraceLib
=====
