# -*- coding: utf-8 -*-
"""Standard MIDI files, written and read strictly by the specification, without gsapi.

Events are tuples: ("on"|"off", tick, channel, pitch, velocity),
("chan", tick, status, channel, data...) for other channel messages and
("meta", tick, type, data...). Ticks are absolute.
"""
from __future__ import absolute_import, division, print_function

import struct

LENGTHS = {0x80: 2, 0x90: 2, 0xA0: 2, 0xB0: 2, 0xC0: 1, 0xD0: 1, 0xE0: 2}
EOT = 0x2F


def varlen(n):
    out = [n & 0x7F]
    n >>= 7
    while n:
        out.insert(0, (n & 0x7F) | 0x80)
        n >>= 7
    return out


def text(s):
    return list(bytearray(s.encode("latin-1") if not isinstance(s, bytes) else s))


def name(s, tick=0):
    return ("meta", tick, 3) + tuple(text(s))


def tempo(mpqn, tick=0):
    return ("meta", tick, 0x51, mpqn >> 16 & 255, mpqn >> 8 & 255, mpqn & 255)


def signature(n, power, tick=0):
    return ("meta", tick, 0x58, n, power, 24, 8)


def key(sharps, minor=0, tick=0):
    return ("meta", tick, 0x59, sharps & 255, minor)


def end(tick):
    return ("meta", tick, EOT)


def track_bytes(events, running=False):
    out, now, status = [], 0, None
    for e in events:
        out += varlen(e[1] - now)
        now = e[1]
        if e[0] == "meta":
            out += [0xFF, e[2]] + varlen(len(e) - 3) + list(e[3:])
            status = None
            continue
        if e[0] == "chan":
            st, data = e[2] | e[3], e[4:]
        else:
            st, data = (0x90 if e[0] == "on" else 0x80) | e[2], e[3:]
        if not (running and st == status):
            out.append(st)
        status = st
        out += list(data)
    return bytearray(out)


def encode(tracks, resolution=96, frmt=1, running=False, padding=0):
    out = bytearray(b"MThd") + bytearray(struct.pack(">LHHH", 6 + padding, frmt, len(tracks), resolution))
    out += bytearray(padding)
    for t in tracks:
        data = track_bytes(t, running)
        out += bytearray(b"MTrk") + bytearray(struct.pack(">L", len(data))) + data
    return bytes(out)


class Bad(Exception):
    pass


def need(condition, message):
    if not condition:
        raise Bad(message)


def parse(data):
    """(format, resolution, tracks), or Bad when the file does not follow the specification"""
    data = bytearray(data)
    need(bytes(data[:4]) == b"MThd", "no header")
    size, frmt, count, resolution = struct.unpack(">LHHH", bytes(data[4:14]))
    need(size >= 6, "header size")
    at = 8 + size
    tracks = []
    for i in range(count):
        need(bytes(data[at:at + 4]) == b"MTrk", "no track %d" % i)
        length = struct.unpack(">L", bytes(data[at + 4:at + 8]))[0]
        need(at + 8 + length <= len(data), "track %d is cut" % i)
        tracks.append(parse_track(data[at + 8:at + 8 + length]))
        at += 8 + length
    need(at == len(data), "bytes after the last track")
    return frmt, resolution, tracks


def parse_track(d):
    events, at, now, status = [], 0, 0, None

    def read():
        n = 0
        for i in range(4):
            need(len(pos) < 2 and at_[0] < len(d), "cut number")
            c = d[at_[0]]
            at_[0] += 1
            n = n << 7 | c & 0x7F
            if not c & 0x80:
                return n
        raise Bad("number of more than 4 bytes")
    pos, at_ = [], [0]
    while at_[0] < len(d):
        now += read()
        need(at_[0] < len(d), "cut event")
        c = d[at_[0]]
        if c == 0xFF:
            kind = d[at_[0] + 1]
            at_[0] += 2
            n = read()
            need(at_[0] + n <= len(d), "cut meta event")
            events.append(("meta", now, kind) + tuple(d[at_[0]:at_[0] + n]))
            at_[0] += n
            status = None
            if kind == EOT:
                need(at_[0] == len(d), "events after the end of the track")
            continue
        need(c < 0xF0, "system message %x" % c)
        if c & 0x80:
            status = c
            at_[0] += 1
        need(status is not None, "data without a status")
        n = LENGTHS[status & 0xF0]
        data = tuple(d[at_[0]:at_[0] + n])
        need(len(data) == n and all(x < 128 for x in data), "bad data %r" % (data,))
        at_[0] += n
        top = status & 0xF0
        if top in (0x80, 0x90):
            events.append(("on" if top == 0x90 else "off", now, status & 15) + data)
        else:
            events.append(("chan", now, top, status & 15) + data)
    return events


def write(path, *args, **kw):
    data = encode(*args, **kw)
    with open(path, "wb") as f:
        f.write(data)
    return data


def load(path):
    with open(path, "rb") as f:
        return parse(f.read())
