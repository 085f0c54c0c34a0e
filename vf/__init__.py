"""Property-based verification of ts2python: shared machinery."""
