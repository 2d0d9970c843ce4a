----- MODULE RewardsTrace -----
EXTENDS Rewards, TraceLib
=====
