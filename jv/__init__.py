"""Runtime-monitoring harness for jajapy (see /verif/DESIGN.md)."""
