"""Deductive verifier for C++ functions taken from the clang syntax tree."""
import z3.z3 as _z3

# Terms are kept for the life of the (short) process: nothing here may observe
# a node that was released and reused for another term.
_z3.AstRef.__del__ = lambda self: None
