"""Exceptions."""


class Unsupported(Exception):
    """The engine cannot encode something (check is inconclusive)."""


class UB(Exception):
    """Undefined behaviour / memory violation found in the executed code."""
