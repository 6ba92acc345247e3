"""Deterministic simulation with fault injection for Xtructure."""
