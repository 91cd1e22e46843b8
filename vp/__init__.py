"""Property-based testing machinery for pymoo (see /verif/DESIGN.md)."""
