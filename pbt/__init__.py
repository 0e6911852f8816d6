"""Property-based testing harness for onera/acetone."""
