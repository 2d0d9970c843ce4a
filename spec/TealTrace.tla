----- MODULE TealTrace -----
EXTENDS Teal, TraceLib
=====
