"""Watchdog: turn a non-terminating execution into a reported violation.

Each execution of a harness takes milliseconds; note_progress() is called at
the start of every execution, and one that runs for EXEC_LIMIT seconds of
process CPU time without finishing is reported as a hang.
"""
import signal
import sys
import time as _time

_cpu = _time.process_time


class Hang(BaseException):
    where = '?'


_state = {'rep': None, 'last': 0.0, 'where': 'start', 'limit': 60.0}


def note_progress(where=None):
    _state['last'] = _cpu()
    if where is not None:
        _state['where'] = where


def _tick(signum, frame):
    if _cpu() - _state['last'] > _state['limit']:
        e = Hang('no progress for %.0fs of CPU time in %s' % (_state['limit'], _state['where']))
        e.where = str(_state['where'])
        _state['last'] = _cpu()
        raise e


def arm(rep, total, limit=60.0):
    _state['rep'] = rep
    _state['limit'] = limit
    _state['last'] = _cpu()
    signal.signal(signal.SIGALRM, _tick)
    signal.setitimer(signal.ITIMER_REAL, 5.0, 5.0)


def rearm():
    """In a forked worker (timers are not inherited)."""
    _state['last'] = _cpu()
    signal.signal(signal.SIGALRM, _tick)
    signal.setitimer(signal.ITIMER_REAL, 5.0, 5.0)
