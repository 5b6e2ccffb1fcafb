"""Shared helpers of the harnesses (executed as they are, not transformed)"""


_names = None


def all_tag_names():
    global _names
    if _names is None:
        _names = _all_tag_names()
    return _names


def _all_tag_names():
    from disseminate.tags.tag import Tag
    from disseminate.utils.classes import all_subclasses
    return frozenset(c.__name__.lower() for c in all_subclasses(Tag))


def context(inactive=False, **entries):
    from disseminate.context import BaseContext
    c = BaseContext()
    for k, v in entries.items():
        c[k] = v
    if inactive:
        c['inactive_tags'] = all_tag_names()
    return c
