"""Deterministic simulation with fault injection for MahjongAI (see ../DESIGN.md)."""
