"""Solver-based checking of the real qopt source by symbolic execution."""
