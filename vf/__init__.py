"""Static value-graph analyser for finoptions (see /verif/DESIGN.md)."""
