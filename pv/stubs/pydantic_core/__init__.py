CoreSchema = dict
from . import core_schema  # noqa: E402
