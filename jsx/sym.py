"""Symbolic booleans and integers, where there is a solver; otherwise classes without instances."""

try:
    from symex.engine import SymBool, SymInt
except ImportError:
    class SymBool:
        pass

    class SymInt(int):
        pass
