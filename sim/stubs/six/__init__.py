"""Stand-in for the small part of six that petclaw uses (six is not installed here)."""


def iteritems(d):
    return iter(d.items())


def itervalues(d):
    return iter(d.values())


def iterkeys(d):
    return iter(d.keys())


PY2, PY3 = False, True
string_types = (str,)
integer_types = (int,)
text_type, binary_type = str, bytes


def b(s):
    return s.encode('latin-1')


def u(s):
    return s


def viewitems(d):
    return d.items()


def viewkeys(d):
    return d.keys()


def viewvalues(d):
    return d.values()


def raise_from(value, from_value):
    raise value from from_value


def ensure_str(s, encoding='utf-8', errors='strict'):
    return s.decode(encoding, errors) if isinstance(s, bytes) else s


from . import moves                                      # noqa: E402,F401
