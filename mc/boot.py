# -*- coding: utf-8 -*-
"""Makes gsapi importable from the repository under test, in both interpreters,
with the random modules under control of the enumerator (see choices.py)."""
from __future__ import absolute_import, division, print_function

import logging
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")
PY2 = sys.version_info[0] == 2


class LeaveOutBassmine(object):
    """there is no numpy for Jython, and only gsapi/bassmine.py needs it"""

    def find_module(self, name, path=None):
        return self if name == "gsapi.bassmine" else None

    def load_module(self, name):
        module = sys.modules.setdefault(name, types.ModuleType(str(name)))
        module.__file__ = "<left out: needs numpy>"
        module.__loader__ = self
        return module


class Quiet(object):
    """stands for the standard output while gsapi runs"""

    def write(self, text):
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False


def setup():
    if PY2:
        sys.meta_path.insert(0, LeaveOutBassmine())
        # Python 2 prints the errors of logging calls; the library's messages are not of interest
        logging.raiseExceptions = False
    sys.path.insert(0, REPO)
    import choices
    choices.install()
    logging.disable(logging.CRITICAL)
    if not os.environ.get("VERIF_VERBOSE"):
        sys.stdout = Quiet()
    import gsapi
    assert os.path.abspath(gsapi.__file__).startswith(os.path.abspath(REPO) + os.sep), gsapi.__file__
    logging.disable(logging.CRITICAL)
