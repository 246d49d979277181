------------------------------- MODULE MCLock -------------------------------
EXTENDS SlidingLock
CONSTANTS p1, p2, p3
Sym == Permutations(Procs)
=============================================================================
