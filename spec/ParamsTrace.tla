----- MODULE ParamsTrace -----
EXTENDS Params, TraceLib
=====
