"""Loads the code under test inside the simulated environment."""
import logging
import os
import sys

from . import sim

ALL = ['core', 'server', 'client', 'sampling', 'ioloop_manager', 'kattypes',
       'resource', 'resource_client', 'inspecting_client', 'sensortree']


class Capture(logging.Handler):
    """Formats every record (as any real handler would) and keeps errors."""

    def __init__(self):
        logging.Handler.__init__(self)
        self.records = []
        self.lock = None

    def createLock(self):
        self.lock = None

    def acquire(self):
        pass

    def release(self):
        pass

    def emit(self, record):
        if record.levelno >= logging.WARNING:
            self.records.append((record.levelname, record.name, record.getMessage()[:400]))

    def handle(self, record):
        self.emit(record)


CAPTURE = Capture()


def load(instrument=(), level=logging.CRITICAL + 10, virtual=True):
    """Import katcp (optionally with scheduling points in some modules)."""
    import warnings
    warnings.simplefilter('ignore')
    if virtual:
        sim.install()
    if instrument:
        from . import instrument as ins
        ins.install(['katcp.' + m for m in instrument])
    root = logging.getLogger()
    root.handlers[:] = [CAPTURE]
    root.setLevel(level)
    logging.raiseExceptions = False
    import katcp
    import katcp.core
    repo = os.environ.get('KATCP_REPO', '/repo')
    assert os.path.realpath(katcp.__file__).startswith(os.path.realpath(repo)), katcp.__file__
    return katcp
