"""Bounded dynamic symbolic execution of the real ocgis code, deciding assertions with Z3."""
