"""What a user sees of one parse."""
from collections import namedtuple
import signal
import contextlib

Item = namedtuple("Item", "loc loc_str expected op")
Out = namedtuple("Out", "kind value items recovered text")
#   kind 'ok': value; 'err': items, recovered = ('some', v) | None; 'exc': text


class HangError(Exception):
    pass


@contextlib.contextmanager
def limit(seconds):
    """A path of the code under test that does not come back is a hang."""
    def onalarm(*_):
        raise HangError("no result within %d s" % seconds)
    try:
        old = signal.signal(signal.SIGALRM, onalarm)
    except ValueError:
        yield
        return
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def op_of(rp, op):
    if op is None:
        return None
    if type(op) is rp.Skip:
        return ("skip", op.count)
    if type(op) is rp.Insert:
        return ("ins", op.label)
    return ("?", repr(op))


def items_of(rp, err):
    return [Item(tuple(i.loc), i.loc_str, list(i.expected), op_of(rp, i.op)) for i in err.errors]


def observe(rp, run, text=False):
    """Runs `run()` (a parse call) and unwraps its result both ways."""
    try:
        with limit(10):
            return see(rp, run(), text)
    except Exception as e:
        return Out("exc", None, None, None, "%s: %s" % (type(e).__name__, e)
                   if not isinstance(e, (RuntimeError, RecursionError)) or isinstance(e, RecursionError)
                   else "RuntimeError")


def see(rp, r, text=False):
    try:
        v = r.unwrap()
        return Out("ok", v, None, None, None)
    except rp.ParseError as e:
        items = items_of(rp, e)
        txt = str(e) if text else None
    try:
        rec = ("some", r.unwrap(recover=True))
    except rp.ParseError:
        rec = None
    return Out("err", None, items, rec, txt)
