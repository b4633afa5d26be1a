"""Symbolic execution engine for the real dascore sources (see DESIGN.md)."""
