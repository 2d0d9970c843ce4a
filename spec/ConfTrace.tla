----- MODULE ConfTrace -----
EXTENDS Conf, TraceLib
=====
