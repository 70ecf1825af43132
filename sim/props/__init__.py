from .. import boot  # noqa: F401  (the library must be imported through the simulator first)
