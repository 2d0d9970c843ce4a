----------------------------- MODULE ChainTrace -----------------------------
EXTENDS Chain, TraceLib
=============================================================================
