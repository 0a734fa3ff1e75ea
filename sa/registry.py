"""Property id -> the function that decides it."""

from . import app_checks as ac
from . import determinism as dt
from . import page_checks as pg
from . import parser_checks as pc
from . import transformer_checks as tf
from . import translator_checks as tc
from . import treeops_checks as to

REGISTRY = {}
for m in (tc, tf, pc, to, ac, pg, dt):
    REGISTRY.update(m.CHECKS)
