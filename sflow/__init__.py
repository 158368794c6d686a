"""sflow: static guarded-effect analysis for pyfar/sofar (see DESIGN.md)."""
