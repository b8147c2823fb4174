"""One function per property: what its check explores."""

RUN = "distinct recorded runs (packets, calls, answers)"
CELL = "distinct records (type, metadata, signedness, bytes, decoded text)"


def c10(c):
    c.records("numeric cells", "CheckCells.tla", "cells", "numeric",
              "integers of every width at powers of two and ten +-1 and random, all 1- and 2-byte integers and sampled "
              "(thorough: all) 3-byte integers in blocks of 256, all YEARs, BIT(1..64), ENUM, SET, FLOAT and DOUBLE over "
              "every exponent and random; " + CELL)
    c.streams("numbers end to end", "numbers", "random tables of these types; " + RUN)


def c11(c):
    c.records("decimal cells", "CheckCells.tla", "cells", "decimal",
              "every (precision, scale): zero, +-all nines, +-one unit, +-leading one, random digit patterns; " + CELL)
    c.streams("decimals end to end", "decimals", "random tables of these types; " + RUN)


def c12(c):
    c.records("temporal cells", "CheckCells.tla", "cells", "temporal",
              "every type and fractional precision over zero, partial, extreme and random values; timestamps in six zones "
              "on both sides of their transitions; " + CELL)
    c.streams("temporals end to end", "temporals", "random tables of these types; " + RUN)


def c13(c):
    c.records("string cells", "CheckCells.tla", "cells", "string",
              "declared lengths 0..65535 around every prefix-width boundary x actual lengths around every boundary; " + CELL)
    c.streams("strings end to end", "strings", "random tables of these types; " + RUN)


def c14(c):
    c.records("JSON documents", "CheckCells.tla", "cells", "json",
              "every scalar kind alone and nested in small- and large-format containers, random documents, wide and deep "
              "containers, documents around and above 64 KB; " + CELL)
    c.streams("documents end to end", "jsons", "random tables of these types; " + RUN)


# faults built into the model, and the properties each must violate
BUGS = {
    "advance-early": "KeepIsBoundary ExactlyOnce LabelsChain",
    "rollback-keeps": "ExactlyOnce",
    "lookup-loses-position": "KeepIsBoundary ExactlyOnce",
    "buffer-kept": "ExactlyOnce",
    "no-wait": "NothingLeft ReaderBeforeClose",
    "forgets-position": "KeepIsBoundary ExactlyOnce",
    "swallows": "NotSwallowed",
}


def model(c, length=3, faults=1, calls=3, bugs=(), live=False):
    consts = {"MaxLen": str(length), "MaxFaults": str(faults), "MaxCalls": str(calls)}
    if live:
        c.model("protocol, liveness", "MCStreamer.tla", "MCStreamerLive.cfg",
                {"MaxLen": str(min(length, 4)), "MaxFaults": "1", "MaxCalls": "2"})
        c.broken_model("protocol, liveness", "MCStreamer.tla", "MCStreamerLive.cfg", {"Bug": '"reader-stuck"'}, ["temporal"])
    c.model("protocol", "MCStreamer.tla", "MCStreamer.cfg", consts)
    for b in bugs:
        c.broken_model("protocol", "MCStreamer.tla", "MCStreamer.cfg", {"MaxLen": "3", "MaxFaults": "1", "Bug": '"%s"' % b},
                       BUGS[b].split())


def schedules(c, limit, race=False, **consts):
    """What the environment may do, as TLC lists it, done to the real Streamer."""
    ks = {"MaxLen": "3", "MaxFaults": "1"}
    ks.update(consts)
    w = c.words("schedules of the environment", "MCStreamer.tla", "MCSchedules.cfg", ks, limit=limit)
    c.streams("schedules", "schedules", "binlogs and mishaps enumerated by TLC from MCStreamer.tla (%s); %s" % (
        ", ".join("%s %s" % kv for kv in sorted(ks.items())), RUN), opts=[w], race=race)


def c01(c):
    model(c, 4 if c.deep else 3, 1, bugs=["buffer-kept"])
    c.streams("fidelity", "fidelity", "random well-formed histories over every column type; " + RUN)
    c.streams("large transactions", "large", "up to a hundred changes, tables or rows at once; " + RUN)
    c.streams("from the middle", "midway", "random histories from a later start position; " + RUN)


def c02(c):
    model(c, 5 if c.deep else 4, 0, calls=1, bugs=["rollback-keeps", "buffer-kept"])
    n = 6 if c.deep else 5
    w = c.words("every binlog", "MCWords.tla", "MCWords.cfg", {"MaxLen": str(n)})
    c.streams("every binlog", "words", "every grammatical binlog of up to %d events over BEGIN, table map, rows, statement, XID, COMMIT, "
              "ROLLBACK, rotation, ignorable event, unknown statement; %s" % (n, RUN), opts=[w])
    c.streams("letter cases", "casings", "every casing of begin, commit, rollback; " + RUN)
    c.streams("long binlogs", "units", "random binlogs of many units; " + RUN)


def c03(c):
    model(c, 4 if c.deep else 3, 1, bugs=["advance-early"])
    c.streams("resume", "resume", "random histories, a new stream from delivered labels; " + RUN)


def c04(c):
    model(c, 4, 2 if not c.deep else 3, bugs=["advance-early", "lookup-loses-position", "forgets-position"])
    schedules(c, 30000 if c.deep else 1500, **({"MaxLen": "4"} if c.deep else {}))
    if c.deep:
        schedules(c, 30000, MaxFaults="2")
    c.streams("undecodable events", "undecodable", "every kind of event cut with its length corrected, unsupported events, after "
              "transactions of the same attempt; " + RUN)
    c.streams("refusals", "refusals", "every call of the handler or mapper failing, with many kinds of error; " + RUN)
    c.streams("faults", "faults", "random histories, up to 4 failing attempts, then one that succeeds; " + RUN)


def c05(c):
    model(c, 4 if c.deep else 3, 1, bugs=["no-wait"], live=True)
    c.streams("race detector: endings", "endings", "every way to end at random points; " + RUN, race=True)
    c.streams("race detector: twins", "twins", "two streamers side by side; " + RUN, race=True)
    c.streams("race detector: storms", "storms", "repeated failing attempts under pressure; " + RUN, race=True)
    schedules(c, 30000 if c.deep else 1000, race=True, **({"MaxLen": "4"} if c.deep else {}))
    c.streams("cancelled while dialling", "rash", "the context ends between the dial and the driver's first look at it; " + RUN,
              shards=1, opts=["deadline=3000"], known=c.listed("dial-leak", dial_leak))


def dial_leak(r):
    """The known finding of C05: nothing but the driver's forgotten connection (see KNOWN_FINDINGS.md)."""
    kinds = [e["e"] for e in r["ev"]]
    if [k for k in kinds if k != "error"] != ["renew", "call", "accept", "cancel", "ret", "open"]:
        return None
    stack = bytes(r["ev"][-1]["stack"]).decode("utf8", "replace")
    gs = [g for g in stack.split("\n\n") if g.strip()]
    if len(gs) != 1 or "mysql.(*mysqlConn).startWatcher" not in gs[0] or "gobinlog" in gs[0].split("created by")[0]:
        return None
    return ("the driver (Breeze0806/mysql v1.4.2, connector.Connect) forgets the connection and its watcher when the context "
            "ends after the dial and before watchCancel")


def c06(c):
    model(c, 4 if c.deep else 3, 1, bugs=["swallows"])
    c.streams("endings", "endings", "every way to end at random points; " + RUN)
    c.streams("undecodable events", "undecodable", "every kind of event cut with its length corrected, unsupported events, after "
              "transactions of the same attempt; " + RUN)
    c.streams("refusals", "refusals", "every call of the handler or mapper failing, with many kinds of error; " + RUN)
    c.streams("reasons", "reasons", "every way to end right after every event, whatever the pace; " + RUN)
    schedules(c, 30000 if c.deep else 800, **({"MaxLen": "4"} if c.deep else {}))


def c07(c):
    model(c, 3, 1, bugs=["forgets-position"])
    c.streams("requests", "requests", "server ids, file names, offsets and sequences of attempts; " + RUN)


def c08(c):
    model(c, 3, 1, bugs=["buffer-kept"])
    c.streams("stable", "stable", "delivered transactions read again at the end, half of them after handlers overwrote "
              "what they got; " + RUN)
    c.streams("twins", "twins", "the same of two streamers side by side; " + RUN)


def events(c, name, which, rule):
    c.records(name, "CheckEvents.tla", "events", which, rule + "; distinct records (event bytes, decoded fields)")


def c09(c):
    events(c, "rows events", "rows", "tables of 1..300 columns over every type, presence and NULL bitmaps, 0..80 rows, v1 and v2, every kind, "
           "extra data 0..65533 bytes, and every type with every metadata value (VARCHAR: boundaries and a sample; thorough: all)")
    c.streams("images end to end", "images", "tables of 1..33 columns, partial images; " + RUN)


def c15(c):
    events(c, "table maps", "maps", "1..600 columns, names of 1..255 bytes, any metadata, 4- and 6-byte ids, header lengths 19..255, trailing metadata")
    c.streams("tables end to end", "maps", "ids announced again, tables that change, mappers that disagree; " + RUN)


def c16(c):
    events(c, "headers and control events", "control", "format descriptions with tables of 27..255 entries, every subset of the status variables "
           "up to the charset, each event without a checksum, with CRC32, and with the algorithm undefined; every event type")
    c.streams("control events end to end", "control", "statements and rotations; " + RUN)


def c17(c):
    events(c, "validity gate", "gate", "every length 0..64 with length fields around it, events cut at and extended from every length, random buffers")
    c.streams("cut and garbled events", "cuts", "an event cut, extended or garbled at every index of a small history, more events behind it; " + RUN)
    c.streams("undecodable events", "undecodable", "every kind of event cut with its length corrected, unsupported events, after "
              "transactions of the same attempt; " + RUN)
    c.streams("documents that are none", "documents", "JSON documents with one count, size, offset, key, kind or literal that "
              "makes them none; " + RUN)
    c.streams("garbage", "garbage", "packets that are not events and events with undecodable bodies in random histories; " + RUN)


GTID = "distinct records (sets, operations, answers)"


def c18(c):
    w = "8" if c.deep else "6"
    c.model("intervals", "MCGtid.tla", "MCGtid.cfg", {"Window": w})
    c.broken_model("intervals", "MCGtid.tla", "MCGtid.cfg", {"Bug": '"half-merge"'}, ["Canonical"])
    c.records("sets in a window", "CheckGtid.tla", "gtids", "windows",
              "every set over (servers, numbers) in {(1,1), (1,5), (1,8), (2,4), (3,2), (4,2)} made in up to six ways, every pair compared, every "
              "id of the window and next to it asked for and added; random sets over up to 4 servers and 28 ids; " + GTID)
    c.records("additions", "CheckGtid.tla", "gtids", "growth",
              "families of sets grown by up to 12 additions over 1..4 servers, siblings included, numbers 1..2^63-1; every pair compared, "
              "every set read again at the end; " + GTID)


def c19(c):
    c.records("encodings", "CheckGtid.tla", "gtids", "codes",
              "ids over every byte of the server id and numbers around every power of two, MySQL sets of 0..8 servers, MariaDB sets of 1..8 "
              "domains and families of them grown by 12 additions, GTID and previous-GTIDs events with and without checksum; " + GTID)


def c20(c):
    c.model("JSON texts", "MCJsonText.tla", "MCJsonText.cfg")
    c.records("transactions as JSON", "CheckTx.tla", "txs", "synthetic",
              "every column type 0..255, every statement type, every byte and many odd texts (controls, quotes, separators, surrogates, every kind "
              "of invalid UTF-8) everywhere a text may be, NULL, empty and absent data, offsets around every power of two, random shapes; "
              "four ways to serialise; distinct records (transaction, texts)")
    c.records("delivered transactions as JSON", "CheckTx.tla", "txs", "delivered",
              "what real streams deliver for random histories over every column type; distinct records (transaction, texts)")


ASSUME = [
    "TLC evaluates the specification correctly",
    "the harness's fake master and encoders only choose inputs: what an input means is computed by the specification from its bytes",
]

PROPS = {
    "C01": (c01, "exploration"),
    "C02": (c02, "exploration"),
    "C03": (c03, "exploration"),
    "C04": (c04, "exploration"),
    "C05": (c05, "exploration"),
    "C06": (c06, "exploration"),
    "C07": (c07, "exploration"),
    "C08": (c08, "exploration"),
    "C09": (c09, "exploration"),
    "C10": (c10, "exploration"),
    "C11": (c11, "exploration"),
    "C12": (c12, "exploration"),
    "C13": (c13, "exploration"),
    "C14": (c14, "exploration"),
    "C15": (c15, "exploration"),
    "C16": (c16, "exploration"),
    "C17": (c17, "exploration"),
    "C18": (c18, "exploration"),
    "C19": (c19, "exploration"),
    "C20": (c20, "exploration"),
}

RECORD_TECH = "TLA+ specification evaluated by TLC over recorded executions of the real decoders"
RECORD_NOTE = ("TLC evaluates the TLA+ denotation of every generated input and compares it with what the real code returned; "
               "exhaustive where the domain is small, boundary-directed and seeded-random elsewhere. Trusts TLC and the specification.")
STREAM_TECH = "TLA+ model checking (TLC) of the protocol, and trace validation: TLC checks recorded runs of the real Streamer against the specification"
STREAM_NOTE = ("The protocol model is explored exhaustively within small bounds; every run of the real Streamer against a scripted master is "
               "recorded event by event and TLC decides whether it is a behaviour of Streamer.tla over Binlog.tla. Bounded by the scenarios "
               "explored; trusts TLC, the specification and the harness's event order.")
NOTES = {i: (RECORD_TECH, RECORD_NOTE) for i in ("C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20")}
NOTES.update({i: (STREAM_TECH, STREAM_NOTE) for i in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08")})
