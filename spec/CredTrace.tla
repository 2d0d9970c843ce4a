----- MODULE CredTrace -----
EXTENDS Cred, TraceLib
=====
