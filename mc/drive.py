"""Small client-side helpers shared by the checks (public API of pypsrp only)."""
from .server import connection


def pool(host=None, conn=None, **kw):
    from pypsrp.powershell import RunspacePool
    ckw = {k: kw.pop(k) for k in list(kw) if k in ("max_envelope_size", "operation_timeout", "read_timeout", "connection_timeout", "locale", "data_locale")}
    return RunspacePool(conn or connection(**ckw), host=host, **kw)


def host(read_line=None, raw=False):
    from pypsrp.complex_objects import Color, Coordinates, Size
    from pypsrp.host import PSHost, PSHostRawUserInterface, PSHostUserInterface

    class UI(PSHostUserInterface):
        def ReadLine(self, runspace, pipeline):
            return read_line() if callable(read_line) else read_line
    rui = None
    if raw:
        rui = PSHostRawUserInterface("title", 0, Color(value=1), Color(value=2), Coordinates(x=0, y=0), Coordinates(x=1, y=2), Size(width=5, height=6), Size(width=7, height=8), Size(width=9, height=10), Size(width=11, height=12))
    return PSHost(None, None, False, "h", None, UI(rui), "1.0")


def freeze(v, seen=()):
    """Any decoded value as a comparable tuple that says nothing about how the value is stored."""
    import datetime
    import decimal
    import queue
    import uuid
    if v is None or isinstance(v, (bool, int, float, str, bytes, decimal.Decimal, uuid.UUID, datetime.datetime, datetime.timedelta)):
        return (type(v).__name__, repr(v)) if isinstance(v, float) else (type(v).__name__, v)
    if id(v) in seen:
        return ("cycle",)
    seen = seen + (id(v),)
    if isinstance(v, (list, tuple, set)):
        return ("list", tuple(freeze(x, seen) for x in v))
    if isinstance(v, dict):
        return ("dict", tuple((freeze(k, seen), freeze(x, seen)) for k, x in v.items()))
    if isinstance(v, queue.Queue):
        return ("queue", tuple(freeze(x, seen) for x in list(v.queue)))
    d = {k: x for k, x in vars(v).items() if not k.startswith("_")}
    return (type(v).__name__, str(v), tuple((k, freeze(x, seen)) for k, x in sorted(d.items())))


STREAMS = ("error", "warning", "verbose", "debug", "progress", "information")


def result(ps):
    """Everything a caller can see of a finished pipeline."""
    return (tuple(freeze(o) for o in ps.output), tuple((s, tuple(freeze(r) for r in getattr(ps.streams, s))) for s in STREAMS), int(ps.state), bool(ps.had_errors))


def texts(ps):
    """Outputs and stream records by their text only."""
    return ([o if isinstance(o, str) else str(o) for o in ps.output],) + tuple([str(r) for r in getattr(ps.streams, s)] for s in STREAMS)
