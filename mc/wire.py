"""Independent PSRP wire codec (MS-PSRP 2.2.1 message header, 2.2.4 fragments).  Shares no code with pypsrp."""
import struct
import uuid

SESSION_CAPABILITY = 0x00010002
INIT_RUNSPACEPOOL = 0x00010004
PUBLIC_KEY = 0x00010005
ENCRYPTED_SESSION_KEY = 0x00010006
PUBLIC_KEY_REQUEST = 0x00010007
CONNECT_RUNSPACEPOOL = 0x00010008
RUNSPACEPOOL_INIT_DATA = 0x0002100B
RESET_RUNSPACE_STATE = 0x0002100C
SET_MAX = 0x00021002
SET_MIN = 0x00021003
AVAILABILITY = 0x00021004
POOL_STATE = 0x00021005
CREATE_PIPELINE = 0x00021006
GET_AVAILABLE = 0x00021007
USER_EVENT = 0x00021008
APP_PRIVATE = 0x00021009
GET_COMMAND_METADATA = 0x0002100A
POOL_HOST_CALL = 0x00021100
POOL_HOST_RESPONSE = 0x00021101
PIPELINE_INPUT = 0x00041002
END_OF_INPUT = 0x00041003
OUTPUT = 0x00041004
ERROR = 0x00041005
PIPE_STATE = 0x00041006
DEBUG = 0x00041007
VERBOSE = 0x00041008
WARNING = 0x00041009
PROGRESS = 0x00041010
INFORMATION = 0x00041011
PIPE_HOST_CALL = 0x00041100
PIPE_HOST_RESPONSE = 0x00041101

NIL = uuid.UUID(int=0)


class WireError(Exception):
    pass


class Msg:
    __slots__ = ("dest", "type", "rpid", "pid", "body", "raw", "owner")

    def __init__(self, dest, type, rpid, pid, body, raw=b""):
        self.dest, self.type, self.rpid, self.pid, self.body, self.raw = dest, type, rpid, pid, body, raw

    def key(self):
        return (self.dest, self.type, str(self.rpid), str(self.pid), self.body)

    def __repr__(self):
        return "Msg(%#x,%r)" % (self.type, self.body[:120])


def message(type, body, rpid=NIL, pid=NIL, dest=1, bom=True):
    if isinstance(body, str):
        body = body.encode("utf-8")
    if not isinstance(rpid, uuid.UUID):
        rpid = uuid.UUID(rpid)
    if not isinstance(pid, uuid.UUID):
        pid = uuid.UUID(pid)
    return struct.pack("<II", dest, type) + rpid.bytes_le + pid.bytes_le + (b"\xef\xbb\xbf" if bom else b"") + body


def parse_message(raw):
    if len(raw) < 40:
        raise WireError("message of %d bytes is shorter than its header" % len(raw))
    dest, mtype = struct.unpack("<II", raw[:8])
    body = raw[40:]
    if body.startswith(b"\xef\xbb\xbf"):
        body = body[3:]
    return Msg(dest, mtype, uuid.UUID(bytes_le=raw[8:24]), uuid.UUID(bytes_le=raw[24:40]), body, raw)


def fragment(oid, fid, start, end, data):
    return struct.pack(">QQBI", oid, fid, (1 if start else 0) | (2 if end else 0), len(data)) + data


def split(oid, raw, size):
    """Cut one message into fragments of at most `size` payload bytes (or at the given cut offsets)."""
    if isinstance(size, int):
        parts = [raw[i:i + size] for i in range(0, len(raw), size)] or [b""]
    else:
        cuts = [0] + sorted(size) + [len(raw)]
        parts = [raw[a:b] for a, b in zip(cuts, cuts[1:])]
    return [fragment(oid, n, n == 0, n == len(parts) - 1, p) for n, p in enumerate(parts)]


def parse_fragments(blob):
    out = []
    while blob:
        if len(blob) < 21:
            raise WireError("truncated fragment header (%d bytes)" % len(blob))
        oid, fid, flags, ln = struct.unpack(">QQBI", blob[:21])
        if len(blob) < 21 + ln:
            raise WireError("truncated fragment body (%d of %d bytes)" % (len(blob) - 21, ln))
        if flags & ~3:
            raise WireError("reserved fragment flag bits set: %#x" % flags)
        out.append((oid, fid, bool(flags & 1), bool(flags & 2), blob[21:21 + ln]))
        blob = blob[21 + ln:]
    return out


class Reassembler:
    """Strict server-side reassembly: fragments of one object arrive contiguously from 0, object ids strictly grow."""

    def __init__(self):
        self.cur = None
        self.last_oid = 0
        self.oids = []

    def feed(self, blob):
        done = []
        frags = parse_fragments(blob)
        if not frags:
            raise WireError("empty fragment blob")
        for oid, fid, start, end, data in frags:
            if not data:
                raise WireError("fragment without payload")
            if self.cur is None:
                if not start or fid != 0:
                    raise WireError("object %d does not begin with a start fragment (id %d, start=%s)" % (oid, fid, start))
                if oid <= self.last_oid:
                    raise WireError("object id %d not greater than the previous %d" % (oid, self.last_oid))
                self.cur = [oid, 0, []]
            else:
                if oid != self.cur[0]:
                    raise WireError("object %d starts before object %d ended" % (oid, self.cur[0]))
                if start:
                    raise WireError("start flag on fragment %d of object %d" % (fid, oid))
            if fid != self.cur[1]:
                raise WireError("fragment %d of object %d, expected %d" % (fid, oid, self.cur[1]))
            self.cur[1] += 1
            self.cur[2].append(data)
            if end:
                done.append(parse_message(b"".join(self.cur[2])))
                self.last_oid = oid
                self.oids.append(oid)
                self.cur = None
        return done

    @property
    def pending(self):
        return self.cur is not None
