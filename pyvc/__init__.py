"""pyvc: a small contract-based deductive verifier for the real Python code."""
