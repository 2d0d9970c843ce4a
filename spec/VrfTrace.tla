----- MODULE VrfTrace -----
EXTENDS Vrf, TraceLib
=====
