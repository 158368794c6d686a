"""Property checks built on the sflow analysis."""
