"""symhach: bounded symbolic execution of the real hachoir sources.

The modules of hachoir are loaded from the current /repo working tree through
an import hook (loader.py) and executed by CPython on symbolic proxy values
(core.py, seqs.py, shims.py); every branch on a symbolic condition becomes a
decision of a depth-first exploration whose feasibility, and whose assertions,
are decided by z3 for all values of the symbolic inputs.
"""
