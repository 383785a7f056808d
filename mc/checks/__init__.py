from .. import env  # noqa: wraps scipy before symfit is imported
