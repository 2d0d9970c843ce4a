---- MODULE HistoryTrace ----
EXTENDS History, TraceLib
====
