# -*- coding: utf-8 -*-
"""C29 bass models learn the exact frequencies of the corpus"""
from __future__ import absolute_import, division, print_function

import json
import os
import shutil

from bass import counts, learn, onsets, same_model, shares, together, write
from core import check, product, same, sequences, suite
from lib import near
from gsapi import bassmine

COUNT = [0]
VELOCITIES = (100, 1, 127, 10, 64, 2, 33)


def folders():
    COUNT[0] += 1
    root = os.path.join("output", "c29-%d" % (COUNT[0] % 5))
    shutil.rmtree(root, ignore_errors=True)
    for d in ("bass", "drums"):
        os.makedirs(os.path.join(root, d))
    return os.path.join(root, "bass"), os.path.join(root, "drums")


IDS = (0, 8, 10, 15, 5)


def gen_direct(sc):
    seqs = list(sequences(IDS[:3], 2, 4))
    for a in seqs:
        yield ([a], [a[::-1]])
    for i, (a, b) in enumerate(product(seqs, seqs)):
        if i % sc.pick(97, 5, 1) == 0:
            yield ([a, b], [b, a])
    for i, s in enumerate(product(range(16), range(16))):
        yield ([list(s)], [[s[1], s[0]]])


@suite("sequences", gen_direct, bounds="all sequences of 2..4 of 3 beat patterns, a comb of pairs of them (thorough: all), all pairs of the 16 patterns", py=(3,))
def direct(ctx, case):
    basses, kicks = [list(x) for x in case[0]], [list(x) for x in case[1]]
    first, follow = counts(basses)
    model = learn(basses, kicks)
    what = "basslines %r, kicks %r" % (basses, kicks)
    same_model(model, first, follow, together(kicks, basses), what)
    ctx.op()
    check_rhythm(ctx, model, first, follow, what)
    # learning more and normalizing again
    model.add_temporal([1, 2])
    model.add_interlocking([3], [4])
    model.normalize_model()
    first, follow = counts(basses + [[1, 2]])
    same_model(model, first, follow, together(kicks + [[3]], basses + [[4]]), what + ", and more")


def check_rhythm(ctx, model, first, follow, what):
    init, rhythm = model.rhythm_model("output/")
    ctx.op()
    table = dict(zip(init["initial"]["pattern"], init["initial"]["prob"]))
    same_table(table, shares(first), what + ": rhythm model, first beats")
    same(len(table), len(init["initial"]["pattern"]), what + ": twice the same first beat")
    same(sorted(rhythm), sorted(follow), what + ": beats of the rhythm model")
    for k in follow:
        same_table(dict(zip(rhythm[k]["pattern"], rhythm[k]["probs"])), shares(follow[k]), "%s: rhythm model after %d" % (what, k))
    with open("output/HModel.json") as f:
        stored = json.load(f)
    same({int(k): v for k, v in stored.items()}, {k: {x: list(y) for x, y in v.items()} for k, v in rhythm.items()}, what + ": HModel.json")
    with open("output/HModel_init.json") as f:
        same(json.load(f), init, what + ": HModel_init.json")


def same_table(got, want, what):
    check(set(got) == set(want) and all(near(float(got[k]), float(want[k]), 1e-9) for k in want), "%s: %r instead of %r",
          what, got, {k: str(v) for k, v in want.items()})


NAMES = (("a", "b", "c"), ("1", "11", "111"), ("x y", "x", "y"), ("b.b", "b", "c"), ("[a]", "a", "b"), ("A", "B b", "c"), ("bass", "a bass_x", "b"), ("mid.mid", "dim", "a.mid"),
         ("drums", "drums_a", "a"), ("Take 1", "take 2", "TAKE 3"))


def gen_corpus(sc):
    seqs = list(sequences(IDS, 2, 2)) + [(8, 8, 0, 1), (15, 0, 0, 8), (2, 4, 8, 1)]
    for i, (a, b) in enumerate(product(seqs, seqs)):
        if i % sc.pick(41, 1, 1) == 0:
            yield (a, b, i)


@suite("files", gen_corpus,
       bounds="every pair of 28 basslines and of kicks, in 2 or 3 files named in any order, on and off the grid, "
              "with other drums", py=(3,))
def files(ctx, case):
    a, b, i = case
    names = NAMES[i % len(NAMES)]
    basses = [list(a), list(b), [8, 12]][:2 + i % 2]
    kicks = [list(b), list(a) + [4] * (i % 3), [8, 8]][:2 + i % 2]
    kicks = [k if any(k) else [8] + k[1:] for k in kicks]
    basses = [x if any(x) else [1] + x[1:] for x in basses]
    first, follow = counts(basses)
    inter = together(kicks, basses)
    perms = ((0, 1, 2), (2, 0, 1), (1, 0, 2))
    for perm in perms[:2]:
        bass, drums = folders()
        for k in range(len(basses)):
            name = names[perm[k]]
            write(os.path.join(bass, "bass_%s.mid" % name), basses[k], 40 + k, (0, 0.05, 0.1)[i % 3], velocities=VELOCITIES[(i + k) % 3:])
            write(os.path.join(drums, "drums_%s.mid" % name), kicks[k], 36, (0.05, 0, 0.08)[i % 3], [(0.25, 38), (0.5, 42), (0, 35), (0.75, 37), (0.5, 24)],
                  velocities=VELOCITIES[(i + k + 1) % 3:])
        with open(os.path.join(bass, "readme.txt"), "w") as f:
            f.write("no music")
        slash = "/" if i % 2 else ""
        model, patterns = bassmine.corpus_analysis(bass + slash, drums + slash)
        ctx.op()
        what = "files of basslines %r and kicks %r, named %r" % (basses, kicks, [names[perm[k]] for k in range(len(basses))])
        same(sorted([round(e.startTime, 6) for e in p.events] for p in patterns), sorted(rounded(k, (0.05, 0, 0.08)[i % 3]) for k in kicks), what + ": kicks")
        check(all(e.tag == "Kick" for p in patterns for e in p.events), "%s: other drums than kicks", what)
        model.normalize_model()
        same_model(model, first, follow, inter, what)


def rounded(ids, jitter):
    return [round(int(round(t * 96)) / 96.0, 6) for t in sorted(onsets(ids, jitter))]


@suite("wide", lambda sc: [(n, k) for n in (8, 16, 64) for k in range(sc.pick(2, 8, 60))], bounds="5 basslines of 8..64 beats of all 16 patterns", py=(3,))
def wide(ctx, case):
    n, k = case
    basses = [[((i * (3 + k) + j * 5) * (i + 1) // 3) % 16 for i in range(n)] for j in range(5)]
    kicks = [[((i * 7 + j * k) // 2) % 16 for i in range(n - j)] for j in range(5)]
    first, follow = counts(basses)
    model = learn(basses, kicks)
    same_model(model, first, follow, together(kicks, basses), "5 basslines of %d beats" % n)
    check_rhythm(ctx, model, first, follow, "5 basslines of %d beats" % n)
    ctx.op()


@suite("two models", lambda sc: sequences(range(3), 1, sc.pick(2, 3, 5)), bounds="all histories of lessons on two models, which do not share what they learn", py=(3,))
def two(ctx, case):
    models = [bassmine.MarkovModel(16), bassmine.MarkovModel((16, 16))]
    taught = [([[1, 2]], [[3, 4]]), ([[5, 6]], [[7, 8]])]
    for m, (b, k) in zip(models, taught):
        m.add_temporal(b[0])
        m.add_interlocking(k[0], b[0])
    for i, k in enumerate(case):
        seq = [IDS[(i + k) % 5], IDS[k], 3]
        m, (b, kk) = models[i % 2], taught[i % 2]
        m.add_temporal(seq)
        m.add_interlocking(seq[::-1], seq)
        b.append(seq)
        kk.append(seq[::-1])
        ctx.op()
        for m, (b, kk) in zip(models, taught):
            m.normalize_model()
            first, follow = counts(b)
            same_model(m, first, follow, together(kk, b), "history %r" % (case,))


@suite("pitches", lambda sc: sequences(range(0, 25, 6), 2, sc.pick(3, 3, 4)), bounds="models of other sizes: the pitch model of all sequences of 2..3 (4) of 5 intervals", py=(3,))
def pitches(ctx, case):
    model = bassmine.MarkovModel(25)
    model.add_temporal(list(case))
    model.add_interlocking([0], [24])
    model.normalize_model()
    first, follow = counts([list(case)])
    same_model(model, first, follow, {0: {24: 1}}, "intervals %r" % (case,), 25)
    got = model.pitch_model()
    same(sorted(got), sorted(k - 12 for k in follow), "pitch model")
    for k in follow:
        same_table({x + 12: y for x, y in zip(got[k - 12]["interval"], got[k - 12]["probs"])}, shares(follow[k]), "pitch model after %d" % (k - 12))
    ctx.op(2)


@suite("corpus", lambda sc: [("booka_shade",), ("mr_scruff",)], bounds="the bassmine corpora, against their files", py=(3,))
def from_corpus(ctx, case):
    from gsapi import gsio
    root = os.path.join("/corpora/bassmine", case[0])
    if not os.path.isdir(root):
        return
    model, patterns = bassmine.corpus_analysis(os.path.join(root, "bass"), os.path.join(root, "drums"))
    model.normalize_model()
    basses, kicks = [], []
    for name in sorted(os.listdir(os.path.join(root, "bass"))):
        if not name.endswith(".mid"):
            continue
        for folder, file, res, kw in (("bass", name, basses, {}), ("drums", "drums" + name[4:], kicks, {"noteToTagMap": {"Kick": 36}})):
            p = gsio.fromMidiFile(os.path.join(root, folder, file), **kw)
            ids = [0] * int(-(-p.duration // 1))
            for e in p.events:
                beat = int(e.startTime)
                if beat < len(ids):
                    ids[beat] |= (8, 4, 2, 1)[min(range(4), key=lambda i: abs(i / 4.0 - (e.startTime - beat)))]
            res.append(ids)
    first, follow = counts(basses)
    same_model(model, first, follow, together(kicks, basses), case[0])
    same(len(patterns), len(kicks), "kick patterns")
    ctx.op()


@suite("long", lambda sc: [(n, k) for n in (17, 65, 101, 129, 257, 300, 1001) + sc.pick((), (2049, 4097), (2049, 4097, 65537)) for k in range(sc.pick(2, 4, 4))],
       bounds="one bassline of 17..65537 beats, and as many short ones: with some transitions, kicks and first beats once only", py=(3,))
def long(ctx, case):
    n, k = case
    if k % 2:
        basses = [[8, 8, 10] if i else [5, 3, 8] for i in range(n)]
        kicks = [[8, 0, 2] if i != n - 1 else [2, 9, 8] for i in range(n)]
    else:
        basses = [[8] * (n - 2) + [2, 3], [8, 15]]
        kicks = [[4] * (n - 3) + [1, 12, 6], [8, 9, 9, 9]]
    if k > 1:
        basses, kicks = kicks, basses
    first, follow = counts(basses)
    model = learn(basses, kicks)
    what = "%s of %d" % ("basslines" if k % 2 else "beats", n)
    same_model(model, first, follow, together(kicks, basses), what)
    check_rhythm(ctx, model, first, follow, what)
    ctx.op(n)


@suite("many files", lambda sc: [(n,) for n in sc.pick((12,), (12, 70), (12, 70, 300))], bounds="corpora of up to 300 files", py=(3,))
def many_files(ctx, case):
    n, = case
    bass, drums = folders()
    basses = [[(i * 7 + j * (i + 1)) % 15 + 1 for j in range(3 + i % 4)] for i in range(n)]
    kicks = [[(i * 5 + j * 3) % 15 + 1 for j in range(2 + i % 6)] for i in range(n)]
    for i in range(n):
        write(os.path.join(bass, "bass_%d.mid" % i), basses[i], (i * 11 + 5) % 128, velocities=VELOCITIES[i % 4:])
        write(os.path.join(drums, "drums_%d.mid" % i), kicks[i], 36, velocities=VELOCITIES[i % 3:])
    model, patterns = bassmine.corpus_analysis(bass, drums)
    same(len(patterns), n, "kick patterns")
    model.normalize_model()
    first, follow = counts(basses)
    same_model(model, first, follow, together(kicks, basses), "%d files" % n)
    ctx.op(n)


@suite("many pitches", lambda sc: [(k, size) for k in range(sc.pick(6, 30, 200)) for size in (25, 40)], bounds="pitch models of sequences of 30 of 25 intervals", py=(3,))
def many_pitches(ctx, case):
    k, size = case
    seq = [(i * i * (k + 3) + i * k) % 25 for i in range(30)] + [0, 12, 0, 3, 0, 24, 0, 12, 0, 0, 0]
    model = bassmine.MarkovModel(size)
    model.add_temporal(seq)
    model.add_interlocking([0], [24])
    model.normalize_model()
    first, follow = counts([seq])
    same_model(model, first, follow, {0: {24: 1}}, "intervals %r" % (seq,), size)
    got = model.pitch_model()
    same(sorted(got), sorted(x - 12 for x in follow), "pitch model")
    for x in follow:
        same_table({y + 12: z for y, z in zip(got[x - 12]["interval"], got[x - 12]["probs"])}, shares(follow[x]), "pitch model after %d" % (x - 12))
    ctx.op(2)
