----- MODULE PaysetTrace -----
EXTENDS Payset, TraceLib
=====
