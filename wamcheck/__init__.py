"""Runtime monitors for WAM2layers: see /verif/DESIGN.md."""
