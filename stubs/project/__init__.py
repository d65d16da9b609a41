"""Modules of the project that uses the library."""
