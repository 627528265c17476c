"""Imports the package under test from /repo's working tree."""
import importlib
import os
import sys

REPO = os.environ.get('VERIF_TARGET') or '/repo'
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
# tzlocal and geopy, which the package imports, live in the repository's venv.
sys.path.append('/opt/venv/lib/python3.12/site-packages')

import badidatetime as B                                   # noqa: E402
assert os.path.dirname(os.path.dirname(os.path.abspath(B.__file__))) \
    == os.path.abspath(REPO), B.__file__
D = importlib.import_module('badidatetime.datetime')       # the module
STRP = importlib.import_module('badidatetime._strptime')
date, time, datetime = D.date, D.time, D.datetime
timedelta, timezone, tzinfo = D.timedelta, D.timezone, D.tzinfo
TZWithCoords = D.TZWithCoords
BC = B.BahaiCalendar()
GC = B.GregorianCalendar()


class Alike(tzinfo):
    """Zones that are all equal, whatever their offsets."""
    def __init__(self, seconds):
        self.off = timedelta(seconds=seconds)

    def utcoffset(self, dt):
        return self.off

    def dst(self, dt):
        return None

    def tzname(self, dt):
        return 'A'

    def __eq__(self, other):
        return isinstance(other, Alike)

    def __hash__(self):
        return 7
