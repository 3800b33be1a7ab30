"""Static analyser for rigeo (see /verif/DESIGN.md)."""
