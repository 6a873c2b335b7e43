"""Deterministic simulation with fault injection for rascal (see /verif/DESIGN.md)."""
