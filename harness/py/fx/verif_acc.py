"""Functions used by declared accessors."""
def starts_with(prefix):
  return lambda name: name.startswith(prefix)


def listed(*names):
  return list(names)
