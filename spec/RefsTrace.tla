----- MODULE RefsTrace -----
EXTENDS Refs, TraceLib
=====
