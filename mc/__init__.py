"""Bounded exhaustive exploration of the real naima code (see DESIGN.md)."""
