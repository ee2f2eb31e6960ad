"""Fault injection and call observation through public module attributes."""

import contextlib


class Fault:
    """`arm()` makes the next call of the watched function raise, once."""

    def __init__(self):
        self.calls = 0
        self.raised = 0
        self.pending = False

    def arm(self):
        self.pending = True


@contextlib.contextmanager
def failing_calls(owner, name, exc):
    original = getattr(owner, name)
    st = Fault()

    def wrapper(*a, **k):
        st.calls += 1
        if st.pending:
            st.pending = False
            st.raised += 1
            raise exc
        return original(*a, **k)

    setattr(owner, name, wrapper)
    try:
        yield st
    finally:
        setattr(owner, name, original)


@contextlib.contextmanager
def observed(owner, name, before=None, after=None):
    """Watch calls of `owner.name`."""
    original = getattr(owner, name)

    def wrapper(*a, **k):
        if before is not None:
            before(*a, **k)
        r = original(*a, **k)
        if after is not None:
            after(r, *a, **k)
        return r

    setattr(owner, name, wrapper)
    try:
        yield
    finally:
        setattr(owner, name, original)
