# -*- coding: utf-8 -*-
"""C32 file helpers return exactly the files that match"""
from __future__ import absolute_import, division, print_function

import os
import shutil

from core import check, fail, product, same, sequences, suite
from gsapi import gsutil

LETTERS = ("a", ".", "m", "b")
SUFFIXES = (None, "", "a", ".m", "m", "am", ".", "aa", ".mid", "b.m")


def stripped(name, suffix):
    return name[:len(name) - len(suffix)] if suffix and name[-len(suffix):] == suffix else name


@suite("suffixes", lambda sc: sequences(LETTERS, 0, sc.pick(3, 5, 7)),
       bounds="strip_suffix of all names of up to 5 (thorough: 7) of 4 letters, 10 suffixes")
def suffixes(ctx, case):
    for start in ("", "dir/"):
        name = start + "".join(case)
        for s in SUFFIXES:
            same(gsutil.strip_suffix(name, s), stripped(name, s), "strip_suffix(%r, %r)" % (name, s))
        same(gsutil.strip_suffix(name), name, "strip_suffix(%r)" % name)
    ctx.op(20)


def base(path):
    return path.split("/")[-1]


POOL = ("a", "b", "ab", "a.m", "ab.m", "b.m", "a.m.m", "d/a", "d/a.m", "e.m/a", "d/ba.m", "A.m", "a[1].m", "a1.m", "[ab].m", "a*.m", "a?.m", "aa.m", ".m", "")
FILES = ("a", "a.m", "d/a.m", "d/a", "b", "ab.m", "a[1]", "a[1].m", "a*", "[ab]", "x/[ab].m", "a?", "z", "a.", "A")


def matches(name, names, suffix, match_suffix):
    wanted = base(stripped(name, suffix))
    return [n for n in names if (not match_suffix or n.endswith(match_suffix)) and base(stripped(n, match_suffix)) == wanted]


@suite("matches", lambda sc: [c for c in product(FILES, SUFFIXES[:6], SUFFIXES[:6])],
       bounds="match_files of 15 names, with brackets and wildcards in them, 6 suffixes of each side, in a list of 20 paths, and each of them alone")
def match(ctx, case):
    name, suffix, match_suffix = case
    for names in [list(POOL), list(reversed(POOL))] + [[n] for n in POOL] + [[]]:
        given = list(names)
        what = "match_files(%r, %r, %r, %r)" % (name, names, suffix, match_suffix)
        same(gsutil.match_files(name, names, suffix, match_suffix), matches(name, names, suffix, match_suffix), what)
        same(names, given, what + " changed the list")
        ctx.op()
    if suffix is None and match_suffix is None:
        same(gsutil.match_files(name, list(POOL)), matches(name, POOL, None, None), "match_files(%r)" % name)


@suite("twice", lambda sc: sequences(("a.m", "d/a.m", "b.m", "a"), 0, sc.pick(3, 4, 6)), bounds="lists with repeated names, in order")
def twice(ctx, case):
    for m in (None, ".m"):
        same(gsutil.match_files("a.m", list(case), ".m", m), matches("a.m", case, ".m", m), "match_files in %r" % (case,))
        ctx.op()


HERE = ("a.m", "b.m", "c.txt", "am", "x.m.m", "a[1].m", "a b.mid", "m", "A.M")
ASKED = ("", [""], None, ".m", ".mid", "m", [".m", ".txt"], [".m", "m"], [], [".no"], ".no", ["1].m", ".M"], "[1].m", "?", "*")


def folder(names, path="output/c32"):
    shutil.rmtree("output/c32", ignore_errors=True)
    os.makedirs(path)
    for n in names:
        with open(os.path.join(path, n), "w") as f:
            f.write(n)
    return path


def fits(name, suffix):
    return suffix is None or any(name.endswith(s) for s in (suffix if isinstance(suffix, list) else [suffix]))


def gen_search(sc):
    for m in range(2 ** len(HERE)):
        if m % sc.pick(37, 3, 1) == 0:
            yield (m,)


@suite("search", gen_search, bounds="every third (thorough: every) set of 9 files in a folder, also one with brackets in its name, 13 suffixes or lists of them")
def search(ctx, case):
    names = [n for i, n in enumerate(HERE) if case[0] >> i & 1]
    for path in ("output/c32", "output/c32/f [1]", "output/c32/*"):
        folder(names, path)
        for suffix in ASKED:
            given = list(suffix) if isinstance(suffix, list) else suffix
            want = sorted(os.path.join(path, n) for n in names if fits(n, suffix))
            for p in (path, path + "/"):
                got = gsutil.search_files(p, suffix)
                same([os.path.normpath(x) for x in got], want, "search_files(%r, %r) of %r" % (p, suffix, names))
                same(given, suffix, "search_files changed the suffixes")
                ctx.op()


@suite("lists", lambda sc: sequences(range(5), 0, sc.pick(2, 3, 4)), bounds="all lists of 0..3 (thorough: 4) files and folders, also within lists, with repetitions")
def lists(ctx, case):
    one, two = folder(["a.m", "c.txt"], "output/c32/one"), "output/c32/two"
    os.makedirs(two)
    for n in ("b.m", "a.m"):
        with open(os.path.join(two, n), "w") as f:
            f.write(n)
    things = [one, two, one + "/a.m", one + "/c.txt", [two, one + "/a.m"]]
    inside = [[one + "/a.m", one + "/c.txt"], [two + "/a.m", two + "/b.m"], [one + "/a.m"], [one + "/c.txt"], [two + "/a.m", two + "/b.m", one + "/a.m"]]
    for suffix in (None, ".m", [".txt", "c.txt"], ["t", ".m"], ".no", "", [""], ["", ".no"], ".M", "a.m"):
        paths = [things[k] for k in case]
        want = sorted({x for k in case for x in inside[k] if fits(x, suffix)})
        same(gsutil.search_files(paths, suffix), want, "search_files(%r, %r)" % (paths, suffix))
        same(paths, [things[k] for k in case], "search_files changed the list")
        ctx.op()
        for k in case:
            if k in (2, 3):
                same(gsutil.search_files(things[k], suffix), [x for x in inside[k] if fits(x, suffix)], "search_files(%r, %r)" % (things[k], suffix))
    for missing in ("output/c32/none", [one, "output/c32/none"], "", [""], [one, ""], [["output/c32/none"], one], [[], [two, [""]]]):
        try:
            gsutil.search_files(missing)
        except IOError:
            pass
        else:
            fail("search_files(%r) finds something" % (missing,))


LONG = ("x" * 200, "[a][b][c][d][e][f]", "*" * 30, "?[" * 20, "a]b]c", "[!a]", "[a-z]", u"\xe9t\xe9", " ", "-", "~", "$HOME", "a\nb", "%s")


@suite("names", lambda sc: product(LONG, (".mid", "", ".[m]", "*")), bounds="long names and names with many wildcards, as files, folders and suffixes")
def long_names(ctx, case):
    name, suffix = case
    if type(name) is not str:
        name = name if os.name == "posix" and str is not bytes else name.encode("utf-8")
    path = folder([name + suffix, "x.mid", "a", "f" + suffix], "output/c32/" + name[:100])
    here = sorted({name + suffix, "x.mid", "a", "f" + suffix})
    for s in (None, suffix, name[-3:] + suffix, name + suffix, [suffix, "a"]):
        want = sorted(os.path.join(path, n) for n in here if fits(n, s))
        same([x for x in gsutil.search_files(path, s)], want, "search_files(%r, %r)" % (path, s))
        same(gsutil.search_files([path, os.path.join(path, name + suffix)], s), want, "search_files([%r, ...], %r)" % (path, s))
        ctx.op(2)
    names = [path + "/" + n for n in here] + [name, name * 2, "x" + name, name + suffix + suffix]
    for s, m in product((None, suffix, name[-2:]), (None, suffix, name[-2:])):
        for asked in (name, name + suffix, path + "/" + name + suffix):
            same(gsutil.match_files(asked, names, s, m), matches(asked, names, s, m), "match_files(%r, %r, %r, %r)" % (asked, names, s, m))
            ctx.op()


@suite("relative", lambda sc: [(h, d, i) for h in range(5) for d in range(3) for i in range(len(ASKED)) if (h + d + i) % sc.pick(2, 1, 1) == 0],
       bounds="paths that start with ./ or ../, names and folders with dots, absolute paths, the file itself and its folder")
def relative(ctx, case):
    h, d, i = case
    where = folder([".hidden.m", "a.m", "..m", "b.txt"], ("output/c32/in", "output/c32/.in", "output/c32/in.m")[d])
    os.makedirs(os.path.join(where, "in.m"))
    path = ("./" + where, "../" + os.path.basename(os.getcwd()) + "/" + where, os.path.abspath(where), where, where + "/../" + os.path.basename(where))[h]
    suffix = ASKED[i]
    for name in (".hidden.m", "a.m", "..m", "b.txt"):
        p = path + "/" + name
        want = [p] if fits(name, suffix) else []
        for ask in (p, [p], [p, [p]]):
            same([os.path.abspath(x) for x in gsutil.search_files(ask, suffix)], [os.path.abspath(x) for x in want], "search_files(%r, %r)" % (ask, suffix))
            ctx.op()
    # hidden files are no entries; folders are
    want = [x for x in ("a.m", "b.txt", "in.m") if fits(x, suffix)]
    same([os.path.abspath(x) for x in gsutil.search_files(path, suffix)], [os.path.abspath(os.path.join(where, x)) for x in want],
         "search_files(%r, %r)" % (path, suffix))
