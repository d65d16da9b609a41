"""A trigger backend of the project."""
