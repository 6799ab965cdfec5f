"""Bounded exhaustive exploration of the real `properties` code."""
