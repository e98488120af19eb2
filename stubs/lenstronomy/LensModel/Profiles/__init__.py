"""Stand-in for the lenstronomy sub-package of the same name (see ../README)."""
