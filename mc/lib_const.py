"""Constants shared by task enumeration (no jax) and workers."""
H5 = (0.0, 0.25, 0.5, 0.75, 1.0)
H7 = (-0.5, 0.0, 0.25, 0.5, 0.75, 1.0, 1.5)
