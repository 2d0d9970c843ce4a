----- MODULE MerkleArrayTrace -----
EXTENDS MerkleArray, TraceLib
=====
