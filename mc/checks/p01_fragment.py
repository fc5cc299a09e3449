"""P01: outgoing fragmentation, exhaustively over packet sizes x message lengths x batch shapes x call histories."""
import itertools
import os

from mc import clixml, core, wire
from mc.core import need, same

PROP = "P01"
LEVEL = "exploration"
TECHNIQUE = "bounded-exhaustive enumeration of packet sizes, message lengths and call histories on the real fragmenter, checked by an independent strict reassembler"
LEVEL_NOTE = ("Complete for the stated size/length/history grid on the real code; assumes fragment boundaries depend only on byte lengths "
              "(contents are a fixed pattern plus multi-byte characters).")
RULE = ("one evaluation = one history of fragment/fragment_multiple calls on a fresh fragmenter with one packet size and one vector of message lengths; "
        "non-trivial when it produced at least two fragments")
ASSUMPTIONS = ["reference reassembler mc/wire.py implements MS-PSRP 2.2.4", "the fragmenter is driven through its class, the end-to-end path is P02"]

RPID = "5E11AAAA-0000-4000-8000-000000000001"
PID = "5E11BBBB-0000-4000-8000-000000000002"
BASE = 47  # 40 header bytes + <S></S>


def text(n, k=0):
    return ("abcdefghijklmnopqrstuvwxyz0123456789"[k:] * (n // 20 + 2))[:n]


def run(max_size, calls):
    """calls: list of ('f'|'m', [lengths], multibyte)"""
    from pypsrp.messages import EndOfPipelineInput, PipelineInput
    from pypsrp.powershell import Fragmenter
    from pypsrp.serializer import Serializer
    fr = Fragmenter(max_size, Serializer())
    rs = wire.Reassembler()
    nfrag = 0
    shape = []
    for kind, lens, *mb in calls:
        msgs, want = [], []
        for k, n in enumerate(lens):
            if n is None:
                msgs.append(EndOfPipelineInput())
                want.append((wire.END_OF_INPUT, b""))
            else:
                s = text(n, k)
                if mb and mb[0]:
                    s = "\u20ac" * (n // 3) + s[:n % 3]
                msgs.append(PipelineInput(data=s))
                want.append((wire.PIPELINE_INPUT, ("S", s)))
        if kind == "f":
            packets = [list(fr.fragment(m, RPID, PID)) for m in msgs]
            packets = [p for ps in packets for p in ps]
        else:
            packets = list(fr.fragment_multiple(msgs, RPID, PID))
        got = []
        for p in packets:
            need(len(p) > 0, "empty packet")
            need(len(p) <= max_size, "packet of %d bytes exceeds the limit of %d" % (len(p), max_size), "packet too large")
            try:
                got += rs.feed(bytes(p))
            except wire.WireError as e:
                raise core.Violation("the receiver rejects the packets: %s" % e, "rejected: " + str(e).split("(")[0][:40])
            nfrag += 1
        need(not rs.pending, "the last message never ends")
        same(len(got), len(want), "number of messages rebuilt")
        for m, (t, b) in zip(got, want):
            same(m.type, t, "message type")
            same(m.dest, 2, "destination")
            same(str(m.rpid).upper(), RPID, "runspace pool id")
            same(str(m.pid).upper(), PID, "pipeline id")
            if t == wire.PIPELINE_INPUT:
                same(clixml.decode(m.body), b, "message content")
            else:
                same(m.body, b, "message content")
        shape.append(tuple(len(p) for p in packets))
    same(len(set(rs.oids)), len(rs.oids), "object ids repeat")
    need(all(a < b for a, b in zip(rs.oids, rs.oids[1:])), "object ids do not grow")
    return tuple(shape), nfrag > 1


def one(rep, case, max_size, calls):
    rep.execute(lambda: run(max_size, calls), case=case, choices=lambda: [max_size, calls])


def cases(tier):
    big = tier == "thorough"
    out = [["many", 66000], ["manymsgs", 66000], ["many", 300], ["manymsgs", 300]]
    for ms in range(22, 140 if not big else 260):
        out.append(["single", ms])
    for ms in list(range(60, 96, 1 if big else 5)) + [68, 69, 89, 90, 91, 110, 111, 112, 150]:
        out.append(["pair", ms])
    for ms in ([69, 90, 130] if not big else [60, 68, 69, 70, 89, 90, 91, 111, 130, 160]):
        out.extend(["triple", ms, k] for k in range(6))
    for ms in (61, 70, 92, 113, 200):
        out.append(["hist", ms])
    for ms in (100, 1000, 32768, 113280, 382000):
        out.extend(["realistic", ms, k] for k in (1, 2, 3) if k < 3 or ms <= 1000)
    return sorted(out, key=lambda c: (["realistic", "triple", "many", "manymsgs", "pair", "hist", "single"].index(c[0]), -c[1]))


def run_case(case, rep):
    kind, ms = case[:2]
    if kind == "many":
        one(rep, case, 22, [["f", [ms]], ["f", [1]]])
        return
    if kind == "manymsgs":
        one(rep, case, 100, [["f", [0] * ms]])
        return
    big = os.environ.get("VERIF_TIER") == "thorough"
    pay = ms - 21
    if kind == "single":
        top = max(3 * pay, 4) if pay < 40 else 2 * pay + 4
        for n in range(0, top):
            one(rep, case, ms, [["f", [n]]])
            one(rep, case, ms, [["m", [n]]])
        for n in range(0, 12):
            one(rep, case, ms, [["f", [n * 3 + 1], 1]])
    elif kind == "pair":
        top = 2 * pay + 2 if big else pay + 8
        for a in range(0, top):
            for b in list(range(0, 30)) + [pay - BASE + d for d in range(-3, 26) if 30 <= pay - BASE + d]:
                one(rep, case, ms, [["m", [a, b]]])
            one(rep, case, ms, [["m", [a, None]]])
            one(rep, case, ms, [["m", [None, a]]])
    elif kind == "triple":
        ls = sorted({0, 1, 2, 19, 20, 21, 22, 23, 42, pay - 1, pay, pay + 1} | {max(0, k * pay - BASE + d) for k in (1, 2, 3) for d in (-22, -21, -20, -1, 0, 1)})
        for t in itertools.product(ls[case[2]::6], ls, ls + [None]):
            one(rep, case, ms, [["m", list(t)]])
        for t in itertools.product(ls[::3], repeat=4) if case[2] == 0 else ():
            one(rep, case, ms, [["m", list(t) + [None]]])
    elif kind == "hist":
        ls = sorted({0, 5, max(0, pay - BASE - 21), max(0, pay - BASE), max(0, pay - BASE + 1), 2 * pay - BASE + 1})
        ops = [["f", [n]] for n in ls] + [["m", [a, b]] for a in ls[:4] for b in ls[2:5]] + [["m", [ls[-1], None]]]
        for h in itertools.product(ops, repeat=3 if big else 2):
            one(rep, case, ms, [list(x) for x in h])
        for h in itertools.product(ops[:6], repeat=4):
            one(rep, case, ms, [list(x) for x in h])
    else:
        for size in (ms,):
            near = range(-24, 25) if size <= 1000 else (-22, -21, -20, -1, 0, 1)
            for d in near:
                for k in (case[2],):
                    n = k * (size - 21) - BASE + d
                    if n >= 0:
                        one(rep, case, size, [["f", [n]]])
                        one(rep, case, size, [["m", [n, None]]])
                        one(rep, case, size, [["m", [7, n, None]]])
    rep.sample({"case": case})
