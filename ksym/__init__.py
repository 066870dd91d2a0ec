"""ksym: a small path-exploring symbolic executor for the real kiel sources.

The modules under /repo/kiel are parsed on every run, rewritten at AST level so
that container look-ups, calls and comparisons see symbolic operands, and then
executed by CPython with z3-backed proxy values as inputs.  Every branch on a
symbolic condition is decided by the solver; every feasible side is explored.
"""
