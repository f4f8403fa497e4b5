# -*- coding: utf-8 -*-
"""C18 MIDI files are read and written without loss, by the standard"""
from __future__ import absolute_import, division, print_function

import io
import os

import smf
from core import check, fail, product, same, sequences, suite
from lib import corpus, near
from gsapi import midiio

CLASSES = {0x80: "NoteOffEvent", 0x90: "NoteOnEvent", 0xA0: "AfterTouchEvent", 0xB0: "ControlChangeEvent",
           0xC0: "ProgramChangeEvent", 0xD0: "ChannelAfterTouchEvent", 0xE0: "PitchWheelEvent"}
METAS = {0x00: "SequenceNumberMetaEvent", 0x01: "TextMetaEvent", 0x02: "CopyrightMetaEvent", 0x03: "TrackNameEvent",
         0x04: "InstrumentNameEvent", 0x05: "LyricsEvent", 0x06: "MarkerEvent", 0x07: "CuePointEvent",
         0x08: "ProgramNameEvent", 0x20: "ChannelPrefixEvent", 0x21: "PortEvent", 0x2E: "TrackLoopEvent",
         0x2F: "EndOfTrackEvent", 0x51: "SetTempoEvent", 0x54: "SmpteOffsetEvent", 0x58: "TimeSignatureEvent",
         0x59: "KeySignatureEvent", 0x7F: "SequencerSpecificEvent"}


def read(data):
    return midiio.read_midifile(io.BytesIO(data))


def written(pattern):
    f = io.BytesIO()
    midiio.write_midifile(f, pattern)
    return f.getvalue()


def view(track):
    """a track with relative ticks as events of smf"""
    res, now = [], 0
    for e in track:
        now += e.tick
        if isinstance(e, midiio.MetaEvent):
            res.append(("meta", now, e.metacommand) + tuple(e.data))
            continue
        top = e.statusmsg
        if top in (0x80, 0x90):
            res.append(("on" if top == 0x90 else "off", now, e.channel) + tuple(e.data))
        else:
            res.append(("chan", now, top, e.channel) + tuple(e.data))
    return res


def roundtrip(ctx, tracks, what=None, resolution=96, frmt=1, running=False, padding=0):
    data = smf.encode(tracks, resolution, frmt, running, padding)
    what = what or "a file of %r" % (tracks,)
    got = read(data)
    ctx.op()
    tracks = [list(map(tuple, t)) for t in tracks]
    same([view(t) for t in got], tracks, what + ": events read")
    same((got.resolution, got.frmt), (resolution, frmt), what + ": header")
    for e in [e for t in got for e in t]:
        name = METAS.get(e.metacommand, "UnknownMetaEvent") if isinstance(e, midiio.MetaEvent) else CLASSES[e.statusmsg]
        same(type(e).__name__, name, what + ": class of the event")
    out = written(got)
    ctx.op()
    same([view(t) for t in got], tracks, what + ": writing changed the events")
    try:
        same(smf.parse(out), (frmt, resolution, tracks), what + ": file written")
    except smf.Bad as e:
        fail("%s: the file written does not follow the standard: %s" % (what, e))
    again = read(out)
    ctx.op()
    same([view(t) for t in again], tracks, what + ": read again")
    return got


# numbers of variable length

def gen_varlen(sc):
    low = sc.pick(2 ** 12, 2 ** 17, 2 ** 21)
    size = 2 ** 12
    for i in range(low // size):
        yield ("range", i * size, size)
    digits = (0, 1, 2, 0x3F, 0x40, 0x7E, 0x7F)
    for a, b in product(digits, digits):
        yield ("digits", a, b)
    for i in range(sc.pick(4, 16, 256)):
        yield ("top", i, sc.pick(4, 16, 256))


@suite("varlen", gen_varlen,
       bounds="all numbers below 2^17 (thorough: 2^21), all combinations of 7 digits, and a comb up to 2^28")
def varlen(ctx, case):
    if case[0] == "range":
        values = range(case[1], case[1] + case[2])
    elif case[0] == "digits":
        digits = (0, 1, 2, 0x3F, 0x40, 0x7E, 0x7F)
        values = [((case[1] << 7 | case[2]) << 7 | c) << 7 | d for c in digits for d in digits]
    else:
        step = 2 ** 28 // case[2]
        values = sorted({min(2 ** 28 - 1, case[1] * step + x) for x in list(range(0, 200)) + [2 ** k for k in range(24)]
                         + [step - 1]})
    for n in values:
        got = midiio.write_varlen(n)
        want = smf.varlen(n)
        if [ord(c) for c in got] != want:
            fail("write_varlen(%d)\n   got  %r\n   want %r" % (n, got, want))
        rest = iter(bytearray(want + [5, 6]))
        if midiio.read_varlen(rest) != n or list(rest) != [5, 6]:
            fail("read_varlen of %d" % n)
    ctx.op(2 * len(values))


# single events

def gen_channel(sc):
    for top in sorted(CLASSES):
        for channel in range(16):
            yield (top, channel)


@suite("channel events", gen_channel, bounds="all 7 kinds, 16 channels; both data bytes over all values")
def channel_events(ctx, case):
    top, channel = case
    n = smf.LENGTHS[top]
    datas = [(a, (a * 37 + 5) % 128)[:n] for a in range(128)] + [((a * 11) % 128, a)[:n] for a in range(128)]
    head = "on" if top == 0x90 else "off" if top == 0x80 else "chan"
    events = []
    for i, d in enumerate(datas):
        events.append((head, i) + ((top,) if head == "chan" else ()) + (channel,) + d)
    for running in (False, True):
        got = roundtrip(ctx, [events + [smf.end(999)]], "events %x" % (top | channel), running=running)
        for e, d in zip(got[0], datas):
            if top in (0x80, 0x90):
                same((e.pitch, e.velocity, e.get_pitch(), e.get_velocity()), d + d, "pitch and velocity")
            elif top == 0xA0:
                same((e.pitch, e.value), d, "pitch and value")
            elif top == 0xB0:
                same((e.control, e.value), d, "control and value")
            elif top in (0xC0, 0xD0):
                same(e.value, d[0], "value")
            else:
                same(e.pitch, (d[1] << 7 | d[0]) - 8192, "pitch")
    # built instead of read
    cls = getattr(midiio, CLASSES[top])
    for d in datas[:128]:
        if top in (0x80, 0x90):
            e = cls(tick=7, channel=channel, pitch=d[0], velocity=d[1])
        elif top == 0xA0:
            e = cls(tick=7, channel=channel, pitch=d[0], value=d[1])
        elif top == 0xB0:
            e = cls(tick=7, channel=channel, control=d[0], value=d[1])
        elif top in (0xC0, 0xD0):
            e = cls(tick=7, channel=channel, value=d[0])
        else:
            e = cls(tick=7, channel=channel, pitch=(d[1] << 7 | d[0]) - 8192)
        same((e.tick, e.channel, list(e.data)), (7, channel, list(d)), "a new event %s" % CLASSES[top])
        f = e.copy(tick=9)
        same((f.tick, f.channel, list(f.data), type(f)), (9, channel, list(d), cls), "its copy")
        if hasattr(f, "velocity"):
            f.velocity = 1
            g = e.copy(velocity=3)
            same(list(g.data), [d[0], 3], "a copy with another velocity")
        else:
            f.data[0] = 99
        same(list(e.data), list(d), "the original of a copy that changed")
        ctx.op(2)
    same(list(cls(tick=0).data), [0] * n, "data of a new event")
    same(cls().channel, 0, "channel of a new event")


def gen_pitch(sc):
    return [(i,) for i in range(0, 16384, 512)]


@suite("pitch wheel", gen_pitch, bounds="all 16384 positions of the pitch wheel")
def pitch_wheel(ctx, case):
    for i in range(case[0], case[0] + 512):
        e = midiio.PitchWheelEvent(tick=0, channel=3, pitch=i - 8192)
        same((list(e.data), e.pitch), ([i & 127, i >> 7], i - 8192), "pitch wheel at %d" % i)
        ctx.op()


@suite("meta events", lambda sc: [(kind, n) for kind in range(128) for n in (0, 1, 2, 3, 4, 5, 127, 128, 300)] +
       [(kind, n) for kind in (1, 3, 5, 0x60, 0x7F) for n in (16383, 16384, 20000, 70000)[sc.level // 2:]],
       bounds="all types of meta events, with 0..5, 127, 128 and 300 bytes, some with up to 70000")
def meta_events(ctx, case):
    kind, n = case
    if kind == smf.EOT and n:
        return
    data = tuple((i * 7 + kind) % 256 for i in range(n))
    events = [("on", 0, 1, 60, 80), ("meta", 3, kind) + data, ("off", 200, 1, 60, 0)]
    if kind == smf.EOT:
        events = [events[0], events[1]]
    else:
        events.append(smf.end(200))
    got = roundtrip(ctx, [events])[0][1]
    if 1 <= kind <= 8:
        same([ord(c) for c in got.text], list(data), "text of the event")
        same(list(type(got)(tick=1, text=got.text).data), list(data), "a new event of that text")


def gen_values(sc):
    for i in range(0, 2 ** 24, 2 ** sc.pick(18, 14, 12)):
        yield ("tempo", i + 1)
    for bpm in range(4, 1000, sc.pick(100, 9, 1)):
        yield ("bpm", bpm)
    for n, power in product(range(1, 256, sc.pick(60, 5, 1)), range(9)):
        yield ("meter", n, power)
    for sharps, minor in product(range(-7, 8), (0, 1)):
        yield ("key", sharps, minor)


@suite("values", gen_values, bounds="tempi over the whole range, all meters of powers of two, all keys")
def values(ctx, case):
    ctx.op()
    if case[0] == "tempo":
        mpqn = case[1]
        e = roundtrip(ctx, [[smf.tempo(mpqn), smf.end(0)]])[0][0]
        same(e.mpqn, mpqn, "microseconds per quarter note")
        check(near(e.bpm, 6e7 / mpqn), "bpm %r", e.bpm)
        f = midiio.SetTempoEvent(tick=0, bpm=e.bpm)
        same(list(f.data), list(e.data), "a tempo of %r bpm" % e.bpm)
    elif case[0] == "bpm":
        e = midiio.SetTempoEvent(bpm=case[1])
        same(e.mpqn, int(round(6e7 / case[1])), "a tempo of %d bpm" % case[1])
    elif case[0] == "meter":
        e = roundtrip(ctx, [[smf.signature(case[1], case[2]), smf.end(0)]])[0][0]
        same((e.numerator, e.denominator, e.metronome, e.thirtyseconds), (case[1], 2 ** case[2], 24, 8), "meter")
        f = midiio.TimeSignatureEvent(numerator=case[1], denominator=2 ** case[2])
        same(list(f.data)[:2], [case[1], case[2]], "a new meter %d/%d" % (case[1], 2 ** case[2]))
    else:
        e = roundtrip(ctx, [[smf.key(case[1], case[2]), smf.end(0)]])[0][0]
        same((e.alternatives, e.minor), case[1:], "key")
        f = midiio.KeySignatureEvent(alternatives=case[1], minor=case[2])
        same(list(f.data), [case[1] % 256, case[2]], "a new key")


# sequences of events

ITEMS = [("on", 0, 60, 80), ("on", 0, 61, 0), ("on", 9, 60, 1), ("off", 0, 60, 64), ("off", 9, 60, 0),
         ("chan", 0xA0, 0, 60, 5), ("chan", 0xB0, 0, 7, 100), ("chan", 0xB0, 15, 64, 127), ("chan", 0xC0, 0, 5),
         ("chan", 0xC0, 9, 127), ("chan", 0xD0, 0, 33), ("chan", 0xE0, 0, 0, 64),
         ("meta", 0x01, 65, 255, 66), ("meta", 0x51, 7, 161, 32), ("meta", 0x20, 3), ("meta", 0x60, 1, 2)]
DELTAS = (0, 1, 127, 128, 480, 16384)


def gen_sequences(sc):
    items = range(len(ITEMS))
    for s in sequences(items, 1, sc.pick(2, 3, 4)):
        if sc.level or len(s) < 2 or (s[0] + s[1]) % 2:
            yield s


@suite("sequences", gen_sequences, bounds="all sequences of 1..3 (thorough: 4) of 16 events, with and without running status")
def sequence(ctx, case):
    events, now = [], 0
    for k, i in enumerate(case):
        e = ITEMS[i]
        now += DELTAS[(i * 5 + k + len(case)) % len(DELTAS)]
        events.append((e[0], now) + e[1:])
    events.append(smf.end(now + 1))
    roundtrip(ctx, [events])
    roundtrip(ctx, [events], running=True)


TRACKS = [[smf.end(0)], [("on", 5, 2, 60, 80), ("on", 9, 2, 60, 0), smf.end(200)],
          [smf.name("a"), ("on", 0, 0, 1, 1), ("on", 1, 0, 2, 2), ("off", 300, 0, 2, 2), smf.end(300)],
          [smf.tempo(500000), smf.signature(3, 3), smf.end(16384)]]


@suite("files", lambda sc: sequences(range(4), 0, sc.pick(2, 3, 5)),
       bounds="all files of 0..3 (thorough: 5) of 4 tracks, formats, resolutions, padded headers")
def files(ctx, case):
    tracks = [TRACKS[i] for i in case]
    for frmt, resolution, running, padding in ((0, 1, True, 0), (1, 96, False, 1), (1, 960, True, 5), (2, 32767, True, 0)):
        roundtrip(ctx, tracks, None, resolution, frmt, running, padding)
    path = os.path.join("output", "c18.mid")
    smf.write(path, tracks)
    got = midiio.read_midifile(path)
    same([view(t) for t in got], tracks, "read by path")
    midiio.write_midifile(path, got)
    same(smf.load(path), (1, 96, tracks), "written by path")
    ctx.op(2)


@suite("long", lambda sc: [(n, k) for n in (50, 300, sc.pick(1000, 6000, 30000)) for k in range(3)],
       bounds="tracks of up to 6000 (thorough: 30000) events, files of up to 300 tracks")
def long_files(ctx, case):
    n, k = case
    if k == 0:
        events = [("on" if i % 3 else "off", i * 7, (i // 10) % 16, i % 128, i % 90) for i in range(n)]
        roundtrip(ctx, [events + [smf.end(n * 7)]], "a long track", running=True)
        roundtrip(ctx, [events + [smf.end(n * 7)]], "a long track")
    elif k == 1:
        tracks = [[smf.name("track %d" % i), ("on", i, i % 16, 60, 1), smf.end(i + 1)] for i in range(min(n, 300))]
        roundtrip(ctx, tracks, "many tracks", running=True)
    else:
        roundtrip(ctx, [[smf.name("x" * n), ("on", 2 ** 27, 0, 60, 1), ("on", 2 ** 28 - 1, 0, 60, 0), smf.end(2 ** 28)]],
                  "a long name")


# ticks, slices

@suite("ticks", lambda sc: sequences((0, 1, 5, 128), 0, sc.pick(3, 5, 7)),
       bounds="all sequences of 0..5 (thorough: 7) of 4 distances, both directions, any number of times, slices")
def ticks(ctx, case):
    def make(relative):
        now, events = 0, []
        for i, d in enumerate(case):
            now += d
            events.append(midiio.NoteOnEvent(tick=d if relative else now, channel=1, pitch=i, velocity=9))
        return midiio.Track(events, tick_relative=relative)
    absolute = [sum(case[:i + 1]) for i in range(len(case))]
    for start in (True, False):
        for seq in ("a", "r", "aa", "rr", "ar", "ra", "arar", "raar"):
            track = make(start)
            pattern = midiio.Pattern(tracks=[track, make(start)], resolution=10, frmt=1, tick_relative=start)
            relative = start
            for c in seq:
                relative = c == "r"
                (pattern.make_ticks_rel if relative else pattern.make_ticks_abs)()
                ctx.op()
            for t in pattern:
                same([e.tick for e in t], list(case) if relative else absolute, "ticks after %s from %r" % (seq, start))
                same([e.pitch for e in t], list(range(len(case))), "events after %s" % seq)
                same(bool(t.tick_relative), relative, "kind of ticks after %s" % seq)
            same(bool(pattern.tick_relative), relative, "kind of ticks of the pattern after %s" % seq)
    for start in (True, False):
        track = make(start)
        for i in range(-1, len(case) + 1):
            for j in range(-1, len(case) + 2):
                s = track[i:j]
                same([id(e) for e in s], [id(e) for e in list(track)[i:j]], "slice [%d:%d]" % (i, j))
                same((type(s), bool(s.tick_relative)), (midiio.Track, start), "kind of the slice")
                ctx.op()
        pattern = midiio.Pattern(tracks=[make(start) for _ in case], resolution=77, frmt=2, tick_relative=start)
        for i in range(len(case) + 1):
            s = pattern[i:]
            same([id(t) for t in s], [id(t) for t in list(pattern)[i:]], "slice of a pattern")
            same((type(s), s.resolution, s.frmt, bool(s.tick_relative)), (midiio.Pattern, 77, 2, start),
                 "kind of the slice of a pattern")
        if case:
            same(id(track[0]), id(list(track)[0]), "first event")


@suite("unordered ticks", lambda sc: sequences((0, 1, 5, 128), 0, sc.pick(3, 4, 6)),
       bounds="all sequences of 0..4 (thorough: 6) events at 4 absolute ticks in any order, to relative ones and back")
def unordered(ctx, case):
    for relative in (False, True):
        pattern = midiio.Pattern(tick_relative=relative)
        for k in range(2):
            pattern.append(midiio.Track([midiio.NoteOnEvent(tick=t, pitch=i) for i, t in enumerate(case)], tick_relative=relative))
        for _ in range(2):
            (pattern.make_ticks_abs if relative else pattern.make_ticks_rel)()
            (pattern.make_ticks_rel if relative else pattern.make_ticks_abs)()
            ctx.op(2)
            for t in pattern:
                same([(e.tick, e.pitch) for e in t], [(t, i) for i, t in enumerate(case)], "ticks there and back")


@suite("fresh", lambda sc: [(name,) for name in sorted(CLASSES.values()) + sorted(METAS.values())],
       bounds="new events, tracks and patterns share nothing")
def fresh(ctx, case):
    cls = getattr(midiio, case[0])
    a, b = cls(tick=1), cls(tick=2)
    before = list(b.data)
    if a.data:
        a.data[0] = 77
    a.data += [3]
    same((a.tick, b.tick, list(b.data), list(cls().data)), (1, 2, before, before), "two new events of %s" % case[0])
    t, u = midiio.Track(), midiio.Track()
    t.append(a)
    p, q = midiio.Pattern(), midiio.Pattern()
    p.append(t)
    same((len(u), len(q), len(midiio.Track()), len(midiio.Pattern())), (0, 0, 0, 0), "new tracks and patterns")
    ctx.op()


@suite("bad files", lambda sc: [(i,) for i in range(3)], bounds="what is not a MIDI file is refused")
def bad_files(ctx, case):
    good = smf.encode([[("on", 0, 0, 60, 1), smf.end(4)]])
    bad = (b"RIFF" + good[4:], good[:14] + b"MThd" + good[18:], b"")[case[0]]
    path = os.path.join("output", "bad.mid")
    with open(path, "wb") as f:
        f.write(bad)
    for source in (io.BytesIO(bad), path):
        try:
            midiio.read_midifile(source)
        except Exception:
            ctx.op()
            continue
        fail("a bad file was read")


@suite("corpus", lambda sc: (corpus("drums", "*.mid") + corpus("harmony", "*.mid"))[:sc.pick(2, 12, 400)],
       bounds="files of the drum and harmony corpora")
def from_corpus(ctx, case):
    try:
        frmt, resolution, tracks = smf.load(case)
    except smf.Bad:
        return
    got = midiio.read_midifile(case)
    same([view(t) for t in got], tracks, case)
    out = written(got)
    same(smf.parse(out), (frmt, resolution, tracks), case + " written")
    ctx.op(2)


@suite("status", lambda sc: product(range(16), range(16) if sc.level else range(0, 16, 5), range(7)),
       bounds="each pair of channels and of kinds of events one after the other, and back, with and without running status")
def status(ctx, case):
    a, b, k = case
    kinds = sorted(CLASSES)
    events = []
    for i, (top, channel) in enumerate([(kinds[k], a), (kinds[k], b), (kinds[(k + a + 1) % 7], b), (kinds[(k + a + 1) % 7], a),
                                        (kinds[k], a), (kinds[k], a), (kinds[k], b)]):
        data = (i + 1, 127 - i)[:smf.LENGTHS[top]]
        if top in (0x80, 0x90):
            events.append(("on" if top == 0x90 else "off", i, channel) + data)
        else:
            events.append(("chan", i, top, channel) + data)
    events.append(smf.end(9))
    roundtrip(ctx, [events], "changes of channel")
    roundtrip(ctx, [events], "changes of channel", running=True)


DAMAGED = [
    [[("on", 0, 0, 60, 100), ("off", 24, 0, 60, 64), ("chan", 30, 0xB0, 1, 7, 100), ("meta", 40, 0x01, 65, 66), smf.end(96)]],
    [[("meta", 0, 0x51, 7, 161, 32), ("meta", 0, 0x58, 4, 2, 24, 8), smf.end(0)], [("on", 0, 9, 36, 1), ("on", 200, 9, 36, 0), ("chan", 200, 0xC0, 9, 5), smf.end(20000)]],
    [[("on", 5, 1, 0, 127), ("on", 5, 1, 127, 127), ("off", 300, 1, 0, 0), ("off", 300, 1, 127, 0), ("chan", 301, 0xE0, 1, 0, 64), ("meta", 400, 0x7F) + tuple(range(9)), smf.end(400)]],
]


def gen_damaged(sc):
    for k, tracks in enumerate(DAMAGED):
        for running in (False, True):
            size = len(smf.encode(tracks, 96, 1, running))
            for at in range(size):
                yield (k, running, at, sc.pick(17, 1, 1))


@suite("one byte changed", gen_damaged, bounds="3 files, with and without running status: every value of every byte; what still follows the standard is read by it, of the rest each reading ends")
def one_byte_changed(ctx, case):
    k, running, at, step = case
    data = bytearray(smf.encode(DAMAGED[k], 96, 1, running))
    for value in range(0, 256, step):
        changed = bytearray(data)
        changed[at] = value
        try:
            want = smf.parse(bytes(changed))
        except (smf.Bad, IndexError):
            want = None
        what = "a file of %r with byte %d = %d" % (DAMAGED[k], at, value)
        try:
            got = read(bytes(changed))
        except Exception as e:
            check(want is None, "%s, which follows the standard, is refused: %r", what, e)
            continue
        finally:
            ctx.op()
        if want is not None:
            same((got.frmt, got.resolution, [view(t) for t in got]), want, what)
            same(smf.parse(written(got)), want, what + ": written again")
    ctx.visited(256 // step, 0, 0)


AROUND = [("on", 0, 60, 80), ("off", 0, 60, 0), ("chan", 0xB0, 3, 7, 100), ("chan", 0xC0, 0, 5), ("meta", 0x01, 65)]


def with_sysex(before, payload, after, running):
    """the bytes of a track, an event, a system message 5 ticks later and another event 7 ticks later"""
    def at(e, tick):
        return e[:1] + (tick,) + e[1:]
    first, second = [at(e, 0) for e in before], [at(e, 7) for e in after]
    message = [5, 0xF0] + smf.varlen(len(payload) + 1) + list(payload) + [0xF7]
    body = smf.track_bytes(first, running) + bytearray(message) + smf.track_bytes(second + [smf.end(7)], running)
    data = bytearray(smf.encode([], 96, 1)[:10]) + bytearray([0, 1, 0, 96]) + bytearray(b"MTrk") + bytearray([0, 0, len(body) >> 8, len(body) & 255]) + body
    return bytes(data), first, [e[:1] + (e[1] + 5,) + e[2:] for e in second] + [smf.end(12)], message[2:]


@suite("system messages", lambda sc: product(sequences(range(len(AROUND)), 0, 1), sequences(range(len(AROUND)), 0, 2), (0, 1, 2, 100, sc.pick(127, 200, 2000)), (False, True)), bounds="a system exclusive message of up to 200 (thorough: 2000) bytes "
       "between all events: the events around it and their ticks are read, and it is written again byte by byte")
def system_messages(ctx, case):
    before, after, size, running = [AROUND[i] for i in case[0]], [AROUND[i] for i in case[1]], case[2], case[3]
    payload = [(i * 37 + 11) % 128 for i in range(size)]
    data, first, second, message = with_sysex(before, payload, after, running)
    got = read(data)
    check(len(got) == 1 and len(got[0]) == len(first) + 1 + len(second), "%d events read", len(got[0]))
    for what in ("read", "written and read again"):
        e = got[0][len(first)]
        same((type(e).__name__, e.tick), ("SysexEvent", 5), "the message, %s" % what)
        same(view(got[0][:len(first)]), first, "events before, %s" % what)
        rest = got[0][len(first) + 1:]
        rest[0].tick += 5
        same(view(rest), second, "events after, %s" % what)
        rest[0].tick -= 5
        out = written(got)
        start = 22 + len(smf.track_bytes(first, True))
        at = bytearray(out).find(bytearray([5, 0xF0] + message))
        check(at >= start, "%s: written without the message: %r", what, out)
        check(bytearray(out)[at + 3 + len(message)] >= 0x80, "%s: the event after the message has no status of its own: %r", what, out)
        plain = bytearray(out)
        del plain[at:at + 2 + len(message)]
        plain[18:22] = bytearray([0, 0, (len(plain) - 22) >> 8, (len(plain) - 22) & 255])
        same(smf.parse(bytes(plain)), (1, 96, [first + [e[:1] + (e[1] - 5,) + e[2:] for e in second]]), "%s: what is around the message in the file written" % what)
        got = read(out)
        ctx.op(2)


ESCAPED = ((), (0xF3, 1), (0xF7,), (0xFF, 0x2F, 0), (0x90, 60, 64, 0xF8, 0xFE), tuple(range(256)), (0xF0, 0x43, 0x12, 0x00, 0xF7))


@suite("escapes", lambda sc: product(sequences(range(len(AROUND)), 0, 1), sequences(range(len(AROUND)), 0, sc.pick(1, 2, 3)), range(len(ESCAPED)), (False, True)),
       bounds="escapes of 7 kinds of bytes, one or two, between all events: they and the events around them are read, and written again byte by byte")
def escapes(ctx, case):
    before, after, payload, running = [AROUND[i] for i in case[0]], [AROUND[i] for i in case[1]], list(ESCAPED[case[2]]), case[3]

    def at(e, tick):
        return e[:1] + (tick,) + e[1:]
    first, second = [at(e, 0) for e in before], [at(e, 7) for e in after] + [smf.end(7)]
    escape = [5, 0xF7] + smf.varlen(len(payload)) + payload
    for times in (1, 2):
        body = smf.track_bytes(first, running) + bytearray(escape * times) + smf.track_bytes(second, running)
        data = bytearray(smf.encode([], 96, 1)[:10]) + bytearray([0, 1, 0, 96]) + bytearray(b"MTrk") + bytearray([0, 0, len(body) >> 8, len(body) & 255]) + body
        got = read(bytes(data))
        same(len(got), 1, "tracks")
        what = "an escape of %r between %r and %r" % (payload, first, second)
        for step in ("read", "written and read again"):
            events = list(got[0])
            same(view(events[:len(first)]), first, "%s, %s: events before" % (what, step))
            for e in events[len(first):len(first) + times]:
                same((e.tick, [int(x) for x in e.data]), (5, payload), "%s, %s" % (what, step))
            rest = events[len(first) + times:]
            same(view(rest), second, "%s, %s: events after" % (what, step))
            out = written(got)
            # statuses that could have been left out are written or not
            at_ = bytes(bytearray(out)).find(bytes(bytearray(escape * times)))
            check(at_ >= 22, "%s, %s: not written", what, step)
            check(bytearray(out)[at_ + len(escape) * times + 1] >= 0x80, "%s, %s: the event after it has no status of its own", what, step)
            got = read(out)
            ctx.op(2)


@suite("copies of events", lambda sc: product(sorted(set(CLASSES.values())), (0, 3, 200), (0, 9, 15)), bounds="copies of channel events at 3 ticks on 3 channels, also with other values")
def copies_of_events(ctx, case):
    name, tick, channel = case
    cls = getattr(midiio, name)
    data = [5, 99][:cls.length]
    e = cls(tick=tick, channel=channel, data=list(data))
    f = e.copy()
    same((type(f), f.tick, f.channel, list(f.data)), (cls, tick, channel, data), "a copy")
    g = e.copy(tick=7, channel=2, data=[1, 2][:cls.length])
    same((g.tick, g.channel, list(g.data)), (7, 2, [1, 2][:cls.length]), "a copy with other values")
    f.data[0] = 77
    f.tick += 1
    same((e.tick, e.channel, list(e.data)), (tick, channel, data), "the original")
    ctx.op(2)


@suite("texts", lambda sc: product(sorted(v for k, v in METAS.items() if 1 <= k <= 8), (u"", u"a", u"two words", u"caf\xe9", u"\xff\xfe", u"\u20ac 5", u"x" * 300)), bounds="texts of 8 kinds, given as text and as bytes, "
       "in and beyond Latin-1: the bytes in the file")
def texts(ctx, case):
    name, text = case
    cls = getattr(midiio, name)
    try:
        raw = text.encode("latin-1")
    except UnicodeError:
        raw = text.encode("utf-8")
    for given in (text, raw):
        e = cls(tick=3, text=given)
        same((e.tick, list(e.data)), (3, list(bytearray(raw))), "a text given as %r" % type(given))
        p = midiio.Pattern(resolution=96)
        t = midiio.Track()
        p.append(t)
        t.append(e)
        t.append(midiio.EndOfTrackEvent(tick=1))
        out = written(p)
        same(smf.parse(out), (1, 96, [[("meta", 3, e.metacommand) + tuple(bytearray(raw)), smf.end(4)]]), "the file")
        back = read(out)[0][0]
        same((type(back), list(back.data), [ord(c) for c in back.text]), (cls, list(bytearray(raw)), list(bytearray(raw))), "read again")
        ctx.op(3)


@suite("meters", lambda sc: product((1, 3, 7, 255), (0, 1, 3, 6), (0, 24, 255), (0, 8, 255)), bounds="all four values of a meter, given and set one after the other")
def meters(ctx, case):
    n, power, metronome, thirds = case
    e = midiio.TimeSignatureEvent(numerator=n, denominator=2 ** power, metronome=metronome, thirtyseconds=thirds)
    same(list(e.data), [n, power, metronome, thirds], "a new meter")
    f = midiio.TimeSignatureEvent(data=[9, 9, 9, 9])
    f.thirtyseconds = thirds
    same(list(f.data), [9, 9, 9, thirds], "thirtyseconds")
    f.metronome = metronome
    same(list(f.data), [9, 9, metronome, thirds], "metronome")
    f.denominator = 2 ** power
    same(list(f.data), [9, power, metronome, thirds], "denominator")
    f.numerator = n
    same((list(f.data), f.numerator, f.denominator, f.metronome, f.thirtyseconds), ([n, power, metronome, thirds], n, 2 ** power, metronome, thirds), "numerator")
    ctx.op(5)


@suite("copies of messages", lambda sc: product((0, 3, 200), (1, 3, 100)), bounds="copies of system messages and of unknown meta events at 3 ticks, of 3 lengths")
def copies_of_messages(ctx, case):
    tick, n = case
    data = [i % 128 for i in range(n)]
    e = midiio.SysexEvent(tick=tick, data=list(data))
    f, g = e.copy(), e.copy(tick=9, data=[1])
    same((type(f), f.tick, list(f.data), type(g), g.tick, list(g.data)), (midiio.SysexEvent, tick, data, midiio.SysexEvent, 9, [1]), "copies")
    f.data[0] = 77
    f.data.append(5)
    f.tick += 1
    same((e.tick, list(e.data)), (tick, data), "the original")
    for command in (0x0a, 0x60, 0x7e):
        e = midiio.UnknownMetaEvent(tick=tick, data=list(data), metacommand=command)
        f, g = e.copy(), e.copy(tick=9, data=[1])
        same([(type(x), x.tick, list(x.data), x.metacommand) for x in (f, g)],
             [(midiio.UnknownMetaEvent, tick, data, command), (midiio.UnknownMetaEvent, 9, [1], command)], "copies of a meta event")
        f.data[0] = 77
        f.tick += 1
        same((e.tick, list(e.data)), (tick, data), "the original meta event")
    ctx.op(8)
