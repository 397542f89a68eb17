"""Runtime monitors for the nvector library (see /verif/DESIGN.md)."""
