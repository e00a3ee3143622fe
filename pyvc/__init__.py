"""pyvc: a contract verifier for the Python code of SpeysideHEP/spey (see DESIGN.md)."""
