"""Helpers of the drivers, executed by the interpreter of the library in a scratch environment."""
import json
import logging
import os
import signal

logging.disable(logging.CRITICAL)


class Rec:
    """writes the observations, one JSON object per line"""
    def __init__(self, path):
        self.fp = open(path, 'w', encoding='ascii')
        self.n = 0

    def __call__(rec_, **ev):
        rec_.fp.write(json.dumps(ev, ensure_ascii=True) + '\n')
        rec_.n += 1

    def canary(rec_, **ev):
        """a wrong observation, that the trace specification must reject: the binding is not vacuous"""
        rec_(canary=True, **ev)

    def close(self):
        self.fp.close()


class silence:
    """the library writes its progress on stderr"""
    def __enter__(self):
        self.fd = os.dup(2)
        n = os.open(os.devnull, os.O_WRONLY)
        os.dup2(n, 2)
        os.close(n)

    def __exit__(self, *a):
        os.dup2(self.fd, 2)
        os.close(self.fd)


class NoAnswer(Exception):
    pass


def _alarm(*a):
    raise NoAnswer()


def attempt(f, *a, **k):
    """(True, result) or (False, name of the exception)"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, 60)
    try:
        return True, f(*a, **k)
    except Exception as e:
        return False, type(e).__name__
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def strs(l):
    return [str(x) for x in l]
