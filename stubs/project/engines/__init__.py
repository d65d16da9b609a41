"""Trigger backends of the project."""
