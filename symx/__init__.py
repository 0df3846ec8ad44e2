"""symx: a small dynamic symbolic execution engine for Python source.

The code under test is executed for real by CPython after an import-time AST
rewrite (`symx.rewrite`); values may be symbolic proxies backed by z3 terms
(`symx.core`), every branch on a symbolic condition forks, and every property
assertion is discharged by the solver over all values on the path.
"""
