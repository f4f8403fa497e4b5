"""Writes the generated part of /verif/DESIGN.md (after the line '## Properties'): the oracle of each property and its reach (below), the
bounds of its suites (from the modules), its cost (tools/costs.json) and the planted bugs (seeded/*/meta.json, tools/catches.json)."""
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ORACLE = {
    "C01": ("an independent cutter with exact interval arithmetic: pieces of each event per slice, put back at the start of the slice, must tile the event; identities and deep "
            "snapshots decide sharing", "events that span many slices, begin on a border or beyond the duration, and inexact lengths, together"),
    "C02": ("the set of events whose start is in the half-open window, shifted and trimmed; windows that tile the pattern must hold each event once", "borders and rounding of window ends"),
    "C03": ("a relational contract per voice: no two sound at once, the same onsets, each event one that began there and cut at most to the next onset; a second run is a no-op; "
            "voices come out as they do alone", "nested, chained and simultaneous overlaps in every order of the list"),
    "C04": ("sweep over all time points: covered exactly once by silences where no event sounds; silences of the given tag, pitch and longest duration; events kept as objects",
            "gaps before, between and after unordered and overlapping events, per tag"),
    "C05": ("each start and duration against the nearest multiple of the step (within EPS of the middle both are right), other fields and flags untouched; idempotence", "the middle between steps, inexact steps"),
    "C06": ("per step and tag at most one event, on the grid, from an event that rounds there; repeatable tags as steps; durations of one step", "collisions after rounding and long silences"),
    "C07": ("a model of the duration is run next to the pattern through every history; ends and bars recomputed from the events", "the duration depends on the history, not on the last call"),
    "C08": ("the partition of the events by an independent definition of tag membership; order, fields and sharing checked by identity", "tags that contain each other, tuples, numbers and none"),
    "C09": ("the list without the events asked for, in order and by identity", "equal and nearly equal events, repetitions"),
    "C10": ("plain equality of all fields, and tag comparison by whole tags, over the whole product of values", "pairs of tags of different types"),
    "C11": ("interval membership with tolerance; consistency of cutInSteps, containsTime and activeEventsAtTime with one another", "instants on the ends of events"),
    "C12": ("per voice the end of each event is the next onset of its voice, the last one keeps its end or reaches the end; nothing else changes", "simultaneous onsets and orders of the list"),
    "C13": ("all times multiplied, all pitches moved, names of pitches by an independent table; products of two edits equal the edit by the product", "compositions, every pitch of MIDI"),
    "C14": ("snapshots of both sides before and after each edit of the other one; identities of all nested objects", "which attribute is shared shows only by the edit that touches it"),
    "C15": ("the loaded pattern against the saved one, field by field, and the JSON text by Python's own parser; saved over another file and twice", "types and order of tags, viewpoints and their origins"),
    "C16": ("deep comparison with links followed, shared objects counted by identity", "links between viewpoints, slices and patterns"),
    "C17": ("the bytes of the file parsed by an independent strict reader (mc/smf.py) and the notes at the nearest tick; import gives back the pattern", "rounding, order, maps and keys"),
    "C18": ("an independent encoder and a strict parser of standard MIDI files: bytes to events and back, for every event kind, running status and damaged byte", "the product of statuses, lengths and changed bytes"),
    "C19": ("for each note the set of tags whose list has it, by definition of the map with wildcards", "overlapping entries and wildcards"),
    "C20": ("pairing of note ons and offs written down independently over the event stream, for the tracks asked for; fields of the file", "all streams of a length, with velocity 0 and strays"),
    "C21": ("patterns imported one by one, slices of each; sets of files by an independent glob; a model of the dataset through histories of imports", "order, repetition and changes of the folder"),
    "C22": ("exact transition counts as fractions, computed from the step sequences by mc/markov.py", "all small corpora; ties, order and printing of states"),
    "C23": ("the exact distribution over generated step sequences, from the counts; all random choices are branched on and their probabilities added as fractions", "probabilities cannot be tested by drawing"),
    "C24": ("the distribution, table and fields of the loaded style against those of the one that was saved, through histories", "state left by loads and saves"),
    "C25": ("number and places of events within each density request, from an independent count of the events to add or remove, for all random choices", "requests one after another on the same or another pattern"),
    "C26": ("densities, tags, syncopation recomputed from their definitions; answers from fresh and used descriptors agree", "half beats, fractions, silences, state between evaluations"),
    "C27": ("the scores of all 12 x N chords recomputed from the chord tables; the answer must be among the best (ties are open), and follow transposition", "every set of pitch classes"),
    "C28": ("slices recomputed by definition, descriptor applied to each, links by identity", "the kinds of slices over unordered events"),
    "C29": ("exact relative frequencies, counted from the beat patterns that the MIDI files were written from", "pairs of files in any order, off-grid notes, counts that grow large"),
    "C30": ("brute-force enumeration of all basslines that satisfy the constraint, and the exact distribution over them from the arc-consistent model; every random choice", "dead ends show only for some kicks and draws"),
    "C31": ("binarisation by definition of the nearest part; identifiers, dictionary and onsets inverse to each other; exact distributions for drawing and free generation", "each beat pattern, border and resolution"),
    "C32": ("the same sets by an independent walk and comparison of suffixes, over all small folders", "brackets, wildcards, nested lists"),
    "C33": ("note spelling by line of fifths, MIDI numbers and tables of intervals written independently", "complete tables instead of samples"),
    "C34": ("events grouped by equal onset, one chord each with all their notes and tags", "close onsets, order of the list"),
    "C35": ("each edit of a history is checked by the contracts of C01-C14 (mc/ops.py), together with invariants of the pattern", "edits work on what earlier edits left"),
    "C36": ("a write of n bytes followed by an error, for every n, by a file system stand-in and truncated files: the call must report it, and the file on the disk must be read as the old one, the new one, or refused "
            "(crash points: all of them, exhaustively)", "every byte is a crash point"),
    "C37": ("plain descriptions of all results, compared between CPython 3.12 and Jython 2.7, and files written by either read by both", "division, text, sorting and hashing differ between the languages"),
    "C38": ("exact distributions of basslines from the model, from its stored parts and from its constrained JSON", "keys of JSON become text, steps of more than one digit, state"),
    "C39": ("each act alone in a process of its own is the reference for the same act after any other one, on other and on nearly equal patterns; tables of the modules unchanged", "caches and shared defaults show only in pairs"),
    "C40": ("Python's own list, given the same operations", "each index and slice"),
    "C41": ("commuting diagrams: edit then raise/stretch/select equals the other order; stability of edits that settle", "algebraic laws hold for every pattern"),
    "C42": ("the lines drawn by definition: which event sounds when each block starts, and whether it did in the block before", "onsets in the first block, neighbours, rests, tuples as tags"),
    "C43": ("the same act in silence is the reference for each level; what a handler of the test hears must be on the console once, and no more; a model of level and colours runs through all histories of switches",
            "each message is formatted only at its level; colours are state"),
}

NOTES = """
## What does not apply

gsapi starts no threads or processes and takes no locks: there are no interleavings to explore, and no property is claimed about them. Its only
durable effects are files written by one call; their crash points are explored in C36. No property of the list was left out, so `not_applicable`
is empty. The plots of Markov chains are looked at through a stand-in for matplotlib, which is not installed: what it is given, not how it is drawn.

## What the properties leave open

Where documentation and code leave something open, the properties do not decide it: system messages in several packets, notes without an end, an
on before an off of the same pitch on the same tick, velocity 0 in export, patterns without a name in files, which of several tempi, keys or meters of a file is kept, events of
negative or no duration, notes shorter than 0.0001 beat in import (they are made that long), float rounding in the last places, exact halves between ticks,
which of equally good chords is named, the order of files in a folder, which of several simultaneous events stays, targets of one beat, Markov orders as large as the number of steps, transposition below note 0, masks of other lengths, nested tuples
as tags in JSON files without conserveTuple.

## False alarms met and corrected

* C15 'varied' asked for nested tuples in JSON without conserveTuple, which the format promises only with it: tags of the family changed.
* C20 'far apart' and 'streams' used notes shorter than the documented least duration: resolutions limited to 9000.
* C31 'free' learnt from sequences of one beat, which have no transition: lessons of two beats.
* C23 first compared draws exactly on the border between two outcomes, which have probability 0: not decided any more.
* C37 first compared the order of sets and of files of a folder: compared as sets.
* C23 and C24 gave random numbers from a fixed grid, and so took `items[int(random() * n)]` for something else than `choice(items)`: random
  numbers are unknowns now, which are split where the code looks at them.
* A case was taken for one that does not end after 60 s, which a loaded machine can need: 180 s, and smaller cases in C37.

## Mutation testing

`tools/mutate.py` makes one-token changes of a module (operators, constants, dropped statements) and runs the checks anchored there. Killed / survived / not run by
any case: gspattern 801/62/87, gsstyles 290/180/63, midiio 555/91/181, gsio 503/44/15, bassmine 548/83/39, gsdataset 52/9/2, gsdescriptors 220/37/15,
gstransformers 228/36/1, gsutil 198/3/11, gsextractors 4/6/1. The survivors were read one by one: equivalent changes, log messages, Python 2 branches, error texts
and unused code; what was not (for example the default number of beats, notes of varied basslines, files written though not asked for) became suites.
"""


def suites(path):
    text = open(path, encoding="utf-8").read()
    res = []
    for m in re.finditer(r'@suite\("([^"]+)"', text):
        rest = text[m.end():]
        rest = rest[:rest.index("\ndef ")]
        b = rest[rest.index("bounds=") + 7:]
        b = b.rsplit(", py=", 1)[0].strip()
        b = b[:-1] if b.endswith(")") else b
        res.append((m.group(1), b))
    return res


def evaluated(module_suites, evidence):
    return [(n, evidence.get(n, b)) for n, b in module_suites]


def main():
    costs = json.load(open(os.path.join(VERIF, "tools", "costs.json")))
    catches = json.load(open(os.path.join(VERIF, "tools", "catches.json")))
    titles = {}
    for line in open(os.path.join(VERIF, "properties.jsonl"), encoding="utf-8"):
        p = json.loads(line)
        titles[p["id"]] = p["title"]
    varied = re.search(r'VARIED = \((.*?)\)\n', open(os.path.join(VERIF, "mc", "lib.py"), encoding="utf-8").read(), re.S).group(1)
    varied = "".join(re.findall(r'"([^"]*)"', varied))
    out = ["## Properties", "",
           "All are decided by exhaustive enumeration of executions of the real code within the bounds of each suite; every suite runs on CPython 3.12 and, but for bassmine",
           "and the forking suites, on Jython 2.7. *The family* in the bounds: " + varied + ".",
           "Cost: seconds of wall time on 8 cores, quick / thorough.", ""]
    for c in sorted(titles):
        oracle, reach = ORACLE[c]
        cost = costs.get(c, {})
        out += ["### %s %s" % (c, titles[c]), "",
                "Oracle: %s." % oracle, "",
                "Beyond the tests: %s. Cost: %s / %s s." % (reach, cost.get("quick", "?"), cost.get("thorough", "?")), ""]
        for name, b in suites(os.path.join(VERIF, "mc", "props", c.lower() + ".py")):
            b = re.sub(r"\s*\n\s*", " ", b)
            b = b.replace("VARIED", '"the family"')
            b = "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', b)).replace('\\"', '"')
            out.append("* *%s*: %s" % (name, b))
        out.append("")
    out += [NOTES.strip(), "", "## Planted bugs", "",
            "Each is kept in `seeded/` with a demonstration; found by its check in the quick tier on the date of the last run of `tools/seed.py --recheck`:", "",
            "| bug | breaks | needs | found |", "|---|---|---|---|"]
    for name in sorted(os.listdir(os.path.join(VERIF, "seeded"))):
        m = json.load(open(os.path.join(VERIF, "seeded", name, "meta.json"), encoding="utf-8"))
        out.append("| %s | %s | %s | %s |" % (name, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), catches.get(name, "?")))
    path = os.path.join(VERIF, "DESIGN.md")
    text = open(path, encoding="utf-8").read()
    head = re.split(r"^## Properties$|^@@TABLE@@$", text, maxsplit=1, flags=re.M)[0]
    with open(path, "w", encoding="utf-8") as f:
        f.write(head + "\n".join(out) + "\n")


if __name__ == "__main__":
    main()
