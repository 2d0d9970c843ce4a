----- MODULE CodecTrace -----
EXTENDS Codec, TraceLib
=====
