"""pydv: a small deductive verifier for the Python code of /repo.

The code of /repo is compiled from its current source on every run (see
``world``) and executed by CPython on z3-backed symbolic values (see ``core``
and ``theory``); every branch on a symbolic condition is explored, loops over
sequences of unknown length are cut with invariants, and contracts are
discharged by z3 (cvc5 as a second back end).
"""
