"""what the code of the versioned projects calls to be observed; it lies outside the
tracked folder. The oracle puts its own object in place of this module."""
from . import world as W
W.load()
from mandala.imports import noop as _noop
from mandala.model import Ref, Context

LOG = []


class Err(Exception):
    pass


def hit(*what):
    LOG.append(what)


def val(x):
    if isinstance(x, Ref):
        return Context.current_context.storage.unwrap(x)
    return x


def noop():
    return _noop()
