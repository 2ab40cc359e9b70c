"""pyvc: a contract verifier for the real Python code of /repo (see DESIGN.md)."""
