----- MODULE RoundsTrace -----
EXTENDS Rounds, TraceLib
=====
