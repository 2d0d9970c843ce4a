----- MODULE TrieTrace -----
EXTENDS Trie, TraceLib
=====
