from . import vc  # noqa: F401
