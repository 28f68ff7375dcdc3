"""A stand-in for the library reading shape files: Open is replaced by each
harness."""


def Open(name):
    raise IOError(name)
