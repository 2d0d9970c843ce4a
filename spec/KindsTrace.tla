----- MODULE KindsTrace -----
EXTENDS Kinds, TraceLib
=====
