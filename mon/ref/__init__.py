"""Independent pure-Python reference model (nothing here imports the code under test)."""
