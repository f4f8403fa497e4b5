#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "gsapi/gspattern.py"
IO, MID, STY = "gsapi/gsio.py", "gsapi/midiio.py", "gsapi/gsstyles.py"
DES, TRA, DAT = "gsapi/gsdescriptors.py", "gsapi/gstransformers.py", "gsapi/gsdataset.py"
UTI, DEF, BAS = "gsapi/gsutil.py", "gsapi/gsdefs.py", "gsapi/bassmine.py"

ALL_PATTERNS = ("every pattern: any number, order, overlap and simultaneity of events, any start, duration, pitch, velocity "
                "and tag (text, number, tuple)")

PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, state=state, observe=observe, note=note))


prop("C01", "Equal-length slices lose, add and move no sound",
     "splitInEqualLengthPatterns returns, in time order, slices that all have the desired length, the name of the pattern with "
     "their number, their start in the pattern and its other fields. Put back at its start, each event of the pattern is "
     "covered exactly by consecutive pieces of the same pitch, velocity and tag, one for each slice it sounds in and cut only at "
     "slice borders; no slice holds anything else, and empty slices are left out or kept as asked. With makeCopy the "
     "original and its events are unchanged and share nothing with the slices; the same holds for slices of a viewpoint.",
     ["inputs"], ALL_PATTERNS + ", every positive slice length, also inexact ones such as 1/3",
     "one test splits a random pattern of non-overlapping events; events over several borders, at borders, overlapping, "
     "unordered or beyond the duration are never tried together",
     [P], [("splitInEqualLengthPatterns", P + ": Pattern.splitInEqualLengthPatterns"), ("Event.cutInSteps", P)],
     observe=["the events, start, name and duration of each slice"])

prop("C02", "A time window holds the events that start in it, and no others",
     "patternFromTimeSlice(start, length) returns a pattern of that length that starts there and holds a copy of exactly the "
     "events that start in [start, start+length), moved to the start of the window, with their ends trimmed to the window unless "
     "trimEnd is off. All other fields are kept, and the original and its viewpoints are untouched. Adjacent windows "
     "together hold each event once.",
     ["inputs"], ALL_PATTERNS + ", every window, also empty, before the first and after the last event",
     "the tests take a window of one pattern; borders, trimming and nested viewpoints are not covered",
     [P], [("patternFromTimeSlice", P + ": Pattern.patternFromTimeSlice")], observe=["the returned pattern"])

prop("C03", "Removing overlaps leaves each voice monophonic and loses no onset",
     "After removeOverlapped no two events of a voice (equal tag, or equal pitch when asked) sound at once. Each onset of each "
     "voice still has one of the events that began there, shortened at most to the next onset of its voice and never "
     "lengthened; other voices, pitches and velocities are untouched and the events are in time order. Doing it again changes nothing.",
     ["inputs", "histories"], ALL_PATTERNS, "one test tries a few overlapped patterns; nested, simultaneous and chained overlaps "
     "in every order of the list cannot be sampled exhaustively by hand",
     [P], [("removeOverlapped", P + ": Pattern.removeOverlapped")], observe=["the events of the pattern afterwards"])

prop("C04", "Filling with silences covers exactly the gaps and keeps every event once",
     "After fillWithSilences every instant of [0, duration) is covered by the events of the pattern or by silences, no silence "
     "overlaps an event or another silence (per tag, this holds for the events of each tag with silences of their own), no silence is empty, or longer than maxSilenceTime "
     "when it is set, and silences have the given tag and pitch. Every event remains, once and unchanged. "
     "getFilledWithSilences returns such a pattern and leaves the original as it was.",
     ["inputs"], ALL_PATTERNS + ", every longest silence, both modes",
     "one test fills one pattern and looks at the total; overlapping events, several tags and cut silences are not covered",
     [P], [("fillWithSilences", P + ": Pattern.fillWithSilences"), ("getFilledWithSilences", P)],
     observe=["the events of the pattern afterwards"])

prop("C05", "Quantizing moves each time to the nearest step, and nothing else",
     "quantize(step) moves each start to the nearest multiple of the step and each duration to the nearest non-zero multiple, "
     "as asked by its two flags, without exchanging, adding or removing events nor changing pitch, velocity or tag. "
     "Quantizing again by the same step changes nothing.",
     ["inputs"], ALL_PATTERNS + ", every step, exact in binary or not",
     "no test quantizes; off-by-one and half-step cases depend on exact values",
     [P], [("quantize", P + ": Pattern.quantize")], observe=["start and duration of each event"])

prop("C06", "Aligning on a grid gives step sequences: one event per tag and step",
     "After alignOnGrid(step) every event starts on a multiple of the step, the nearest one to where it was, and lasts for one "
     "step; at most one event of each tag is left on each step; events whose tag is repeatable (by default silence) are cut in "
     "consecutive steps instead. No tag is lost from a step that an event of it moves to (except from the end of the pattern on), none appears elsewhere, and aligning again "
     "changes nothing.",
     ["inputs"], ALL_PATTERNS + ", every step and set of repeatable tags",
     "one test aligns one pattern; ties, duplicates on a step and repeatable events of uneven length are not covered",
     [P], [("alignOnGrid", P + ": Pattern.alignOnGrid")], observe=["the events of the pattern afterwards"])

prop("C07", "The duration of a pattern follows its events through any history",
     "After any history of additions, removals, stretches and duration updates, the duration of a pattern is what the last "
     "update says: durationToLastEvent gives the end of the event that ends last (or only grows, when asked), durationToBar the "
     "end of the bar that holds it, removals leave it as it is. The events are exactly those added and not removed, and "
     "the last note off and the number of events agree with them.",
     ["histories"], "every sequence of additions, removals, tag removals, stretches and duration updates",
     "tests call each operation once; what breaks is an update that depends on earlier ones",
     [P], [("addEvent", P), ("durationToLastEvent", P), ("durationToBar", P), ("lastNoteOff", P)],
     state=[("duration", "length of the pattern in beats", "Pattern.duration")], observe=["duration and events after each step"])

prop("C08", "Selecting by tag or pitch splits a pattern in two without loss",
     "getPatternWithTags, getPatternWithoutTags and getPatternWithPitch return exactly the events that answer (or not) to the "
     "tags or pitch asked for, in order, with all fields of the pattern; a pattern with and one without the same tags hold together "
     "each event once. A tag answers when it equals the one asked for, is in the list asked for, or the function asked for says so, and in inexact searches also when the one asked for "
     "is an element of it; letters of a text never count as its elements. The original is untouched, and copied unless asked not to.",
     ["inputs"], ALL_PATTERNS + ", every query: a tag, a tuple, a list of tags or a function",
     "tests select one text tag; tags that contain each other, tuples, numbers and lists are what goes wrong",
     [P], [("getPatternWithTags", P), ("getPatternWithoutTags", P), ("getPatternWithPitch", P)], observe=["the returned patterns"])

prop("C09", "Removing by tag or by event removes exactly what was asked for",
     "removeByTags removes every event with one of the tags, or whose tuple of tags has one of them, and no other; removeEvent "
     "removes the events equal to the given one in all fields and no other. The order of the remaining events, and every "
     "other field of the pattern, stay as they were.",
     ["inputs", "histories"], ALL_PATTERNS + ", every list of tags and every event, present or not, equal or nearly equal",
     "no test removes consecutive or nearly equal events, where removing while iterating or comparing by a part fails",
     [P], [("removeByTags", P), ("removeEvent", P)], observe=["the events left"])

prop("C10", "Tags compare as wholes, and events and patterns by their fields",
     "isTag, allTagsAreEqualWith and hasCommonTagWith hold exactly when the tags are equal, or have an element in common, where a "
     "text is one element. hasCommonTagWith is symmetric. Two events or patterns are equal exactly when all their compared fields are.",
     ["inputs"], "every pair of tags (texts that contain each other, tuples, numbers, none), events and patterns",
     "tests compare a handful of equal tags",
     [P], [("Event.__eq__", P), ("Event.hasCommonTagWith", P), ("Event.hasOneOfTags", P), ("Pattern.__eq__", P)], observe=["the answers"])

prop("C11", "What sounds and what starts at a time agrees with the events' intervals",
     "activeEventsAtTime(t) and containsTime(t) answer with exactly the events whose [start, end) holds t, and "
     "getStartingEventsAtTime with exactly those that start there or at most the tolerance before. cutInSteps gives as many consecutive events of one step each as fit in the event, at least one, from its start on, "
     "with its pitch, velocity and tag. None of them changes anything.",
     ["inputs"], ALL_PATTERNS + ", every instant and tolerance, every step",
     "tests ask at one time of one pattern; borders are where it fails",
     [P], [("activeEventsAtTime", P), ("getStartingEventsAtTime", P), ("Event.containsTime", P), ("Event.cutInSteps", P)],
     observe=["the events returned"])

prop("C12", "Legato and filling with the previous event leave no gap within a voice",
     "After applyLegato each event ends where the next one of its voice (pitch, or tag when asked) starts and the last one at the end of the "
     "pattern; starts, pitches, velocities, tags and the set of events do not change, and events of other voices have no influence. "
     "fillWithPreviousEvent makes each event last until the next start of any other, or until the end, and does not depend on the "
     "order of the list.",
     ["inputs"], ALL_PATTERNS, "no test looks at several voices or unordered lists",
     [P], [("applyLegato", P), ("fillWithPreviousEvent", P)], observe=["the events of the pattern afterwards"])

prop("C13", "Stretching and transposing scale and shift everything alike",
     "timeStretch multiplies all starts and durations and the duration of the pattern by the ratio, and stretches compose and undo "
     "each other. transpose shifts all pitches by the interval and renames tags to the name of the new pitch; transpositions compose. "
     "Nothing else changes.",
     ["inputs", "histories"], ALL_PATTERNS + ", every positive ratio and every interval that stays in the range of MIDI",
     "no test stretches twice or transposes back",
     [P], [("timeStretch", P), ("transpose", P)], observe=["the events and the duration"])

prop("C14", "Copies and derived patterns are independent of their origin",
     "A copy, window, slice, selection or filled version of a pattern has equal content and shares no event with it: no later "
     "edit of one changes the other, in any order. Copies keep every field, and new patterns and events share no state with "
     "any other.",
     ["histories"], "every way to derive a pattern followed by every edit of either side",
     "aliasing shows only when an edit follows the derivation, for each pair of operations",
     [P], [("Pattern.copy", P), ("copyWithoutEvents", P), ("Event.copy", P)], observe=["both patterns after the edit"])

prop("C15", "A pattern saved as JSON comes back the same",
     "toJSONFile followed by fromJSONFile gives back all events (in order, if they were in time order) with equal start, duration, pitch, velocity and tag, and the name, "
     "duration, tempo, meter, key, start time and viewpoints, with tags indexed or not, whatever the tags are; tuples "
     "come back as tuples when conserveTuple is given on both sides. Saving writes to the documented path, and changes nothing.",
     ["inputs"], "every pattern that lasts until the end of its events: any number, order and overlap of events, any tags, with viewpoints, both flags of the format",
     "one test round-trips one pattern with text tags and the default flags",
     [P, IO], [("toJSONDict/fromJSONDict", P), ("toJSONFile/fromJSONFile", IO)], observe=["the loaded pattern and the file"])

prop("C16", "A pattern saved as a pickle comes back the same, links included",
     "toPickleFile followed by fromPickleFile gives back the same pattern: events, fields, viewpoints and the links to origin patterns, "
     "with shared events and patterns still shared. The file is at the documented path, and saving changes nothing.",
     ["inputs"], ALL_PATTERNS + ", with viewpoints and origin patterns",
     "one test pickles one plain pattern",
     [P, IO], [("toPickleFile/fromPickleFile", IO)], observe=["the loaded pattern"])

prop("C17", "A pattern exported as MIDI comes back the same",
     "toMidiFile writes a file that a strict reader of the MIDI standard accepts and that holds exactly the notes of the pattern "
     "at the nearest tick, with mapped pitches, its name, tempo, meter, key and length. fromMidiFile gives back those events, fields and "
     "duration, independently of the order of the events; exporting again gives the same file, and the exported pattern is not changed.",
     ["inputs"], "every pattern whose notes of a pitch do not overlap; every key, meter, tempo, resolution and map of tags",
     "one test exports one pattern and compares loosely; rounding, order, keys and maps are not covered",
     [IO, MID], [("toMidiFile", IO), ("fromMidiFile", IO), ("FileWriter", MID)], observe=["the bytes of the file, the imported pattern"])

prop("C18", "MIDI files are read and written without loss, by the standard",
     "Reading any standard MIDI file (formats 0 and 1, running status, padded headers, numbers of any length, system messages in one packet, escapes) gives the events of each track "
     "with their ticks, channels and data, and writing a pattern of events gives a file of exactly those events. Variable-length numbers "
     "code every value of 28 bits both ways. Absolute and relative ticks convert into each other without loss, slices keep resolution, format and kind of ticks, and "
     "new and copied events are independent.",
     ["inputs"], "every sequence of channel and meta events over tracks, with or without running status; every 28-bit number",
     "no test reads or writes a file byte for byte",
     [MID], [("FileReader", MID), ("FileWriter", MID), ("read_varlen/write_varlen", MID), ("make_ticks_abs/rel", MID)],
     observe=["bytes and event lists"])

prop("C19", "Imported notes get exactly the tags that the map gives them",
     "With a map of tags, each imported note has exactly the tags that map its pitch and channel (one tag alone, several as a tuple), "
     "whether given as a number, a (note, channel) pair, a wildcard or a list of them; unmapped notes are dropped, or "
     "kept without a tag when asked. With tagFromTrackName the names of the tracks decide instead, and with pitch names the name and octave "
     "of the pitch. The map of the caller never changes.",
     ["inputs", "configurations"], "every map over tags, notes, channels and wildcards, and every note of every channel",
     "tests import with one or two fixed maps",
     [IO, DEF], [("fromMidiFile", IO), ("noteMapping", IO + ": __tagsFromMidiNoteAndChannel"), ("simpleDrumMap", DEF)], observe=["the events and tags of the imported pattern"])

prop("C20", "Importing pairs every note on with its own note off, in the tracks asked for",
     "Each note on of the selected tracks becomes one event that lasts until the next note off (or note on of velocity 0) "
     "of its pitch and tag, in beats; stray note offs create nothing. Tracks are selected by name or index, with or without names. "
     "Tempo, meter, key and resolution are those of the file, its duration that of the longest track, or else the end of the last bar.",
     ["inputs"], "every stream of note ons and offs over tracks, channels, pitches and ticks; every selection of tracks",
     "tests import a few well-formed files",
     [IO], [("fromMidiFile", IO)], observe=["the imported pattern"])

prop("C21", "A dataset holds one pattern per file, and its slices are those of its patterns",
     "A Dataset imports exactly the files its glob matches, pattern i being file i as fromMidiFile imports it with the same options; "
     "importing again or with another glob replaces files and patterns together. Slices and viewpoints of the dataset are those of "
     "its patterns, in their order, and fromMidiCollection gives the same patterns, whole or in slices of the asked length.",
     ["histories", "configurations"], "every folder of files, glob and history of imports, slices and viewpoints",
     "tests load one folder once",
     [DAT, IO], [("Dataset", DAT), ("fromMidiCollection", IO)], state=[("files/patterns", "imported files and patterns", "Dataset")],
     observe=["files, patterns and slices of the dataset"])

prop("C22", "A Markov model holds exactly the transition frequencies of what it learnt",
     "After a style has learnt from patterns, the probability of a step at a position of the loop after a history (the steps before it, as many as the "
     "order of the chain, going round the end of the loop) is the share of that step among all steps that follow that history at that position in the "
     "learnt patterns, whatever the order of patterns and of simultaneous events; histories that were not seen there have none; its lists of states, texts, matrices and plots say the same. Learning again starts afresh, "
     "and learning never changes the patterns.",
     ["inputs", "histories"], "every list of step patterns, every order, number of steps and length of loop",
     "tests build one table and print it",
     [STY], [("MarkovStyle", STY), ("PatternMarkov.generateTransitionTableFromPatternList", STY)], state=[("transition table", "probabilities", "MarkovStyle")],
     observe=["the learnt probabilities"])

prop("C23", "Markov generation follows the learnt model exactly",
     "Every pattern generated by a Markov style begins like a learnt one and goes on by steps each of which follows its history in the learnt patterns; "
     "every such sequence can be generated, and, given its beginning, with exactly the probability of the model. It has the duration and steps of the style, generating changes nothing that was learnt, "
     "and equal seeds give equal patterns.",
     ["inputs", "histories"], "every sequence of random choices, over small learnt sets",
     "a test sees one random outcome; only the enumeration of every random choice gives the exact distribution",
     [STY], [("MarkovStyle.generatePattern", STY), ("PatternMarkov.generatePattern", STY)], observe=["the generated patterns over all choices"])

prop("C24", "Saved styles generate like the style they were saved from",
     "A Markov style saved to JSON or pickle and loaded again has the same parameters and transitions and generates the same patterns with the same "
     "probabilities. A DatabaseStyle gives back its patterns as its mode says, and tells whether it is built.",
     ["inputs", "histories"], "every learnt set and every history of save, load and generate",
     "no test loads a style",
     [STY], [("saveToJSON/loadFromJSON", STY), ("saveToPickle/loadFromPickle", STY), ("DatabaseStyle", STY)], observe=["the loaded style and what it generates"])

prop("C25", "The density of a pattern follows the requests, whatever was asked before",
     "AgnosticDensity.transformPattern gives each tag asked for as many steps as its density says (0 none, 1 exactly the original ones, 2 every step, in proportion between, "
     "limited to that range), only adding or only removing, and leaves the other tags and the input pattern as they were. Whatever was asked before, that number is the same, below 1 all events are "
     "of the original steps and above 1 the original ones all remain. The result keeps the length, fields and step grid of the pattern, "
     "in time order, with at most one event of a tag on a step, whose pitch and velocity are those of an original event of the tag (on its own step if it has one).",
     ["histories", "inputs"], "every sequence of density requests over small patterns, and every random choice within them",
     "tests transform once; the transformer keeps state between calls and chooses at random",
     [TRA], [("AgnosticDensity", TRA)], state=[("density state", "events added and removed so far", "AgnosticDensity")], observe=["the transformed patterns"])

prop("C26", "Descriptors depend on the pattern alone and measure what they say",
     "Each descriptor gives the same value for the same pattern however often and after whatever else it is asked, whatever the order of the "
     "events, and changes nothing. Density is the total duration of the wanted events (the included tags, or all but the ignored ones and silences), NumberOfTags the number of their distinct tags, "
     "Syncopation the sum over the beats that sound before one that does not of the difference of their metrical weights, and DensityDrumSpace the densities of its groups of drums.",
     ["inputs", "histories"], ALL_PATTERNS + ", and every sequence of evaluations",
     "tests evaluate a descriptor once on one pattern and print it",
     [DES], [("Density", DES), ("NumberOfTags", DES), ("Syncopation", DES), ("DensityDrumSpace", DES)], observe=["the values"])

prop("C27", "The recognised chord is the one that fits best, in every transposition",
     "The Chord descriptor answers with a chord of the highest score over all roots and kinds: 0.8 of the time that its notes sound (in any octave), less the time that other notes do, "
     "less half the duration of the pattern for each of its notes that is missing; transposing the pattern transposes the answer. When asked, only major and minor chords are considered, or every "
     "kind that scores best is given once. A pattern in which nothing sounds is a silence.",
     ["inputs"], "every set of up to four pitches, every parameter of the descriptor, all 12 transpositions",
     "a test recognises a few chords of one file",
     [DES, DEF], [("Chord", DES), ("chord types", DEF)], observe=["the chord tag returned"])

prop("C28", "Viewpoints describe each slice of the pattern, linked to it",
     "generateViewpoint yields one event per slice (of a number of beats, per event, or the whole pattern), in order, over the span of the slice, "
     "whose tag is the value of the descriptor for that slice and which links to the slice. The events of the pattern are not changed, generating "
     "again under the same name replaces that viewpoint and no other, and copies of the pattern have viewpoints of their own.",
     ["inputs", "histories"], ALL_PATTERNS + ", every kind of slice and descriptor",
     "one test generates one viewpoint of a file",
     [P], [("generateViewpoint", P)], state=[("viewpoints", "named derived patterns", "Pattern.viewpoints")], observe=["the viewpoint and the pattern"])

prop("C29", "Bass models learn the exact frequencies of the corpus",
     "The rhythm models learnt from basslines and drums (initial, temporal and interlocking) hold, in each row, the frequency of each beat pattern "
     "after the one before (each bassline repeats), or with the kick pattern it came with, over all beats of all files, and rows that were seen add up to one. "
     "Learning does not depend on the order of the files, and models do not share what they learn.",
     ["inputs"], "every corpus of one or two small bass and kick rhythms",
     "no test of the repository runs these models",
     [BAS], [("MarkovModel", BAS), ("corpus_analysis", BAS)], observe=["the learnt matrices"])

prop("C30", "Constrained bass models have no dead ends and lose no solution",
     "A model constrained to a kick pattern, or to the variation of a given rhythm, gives every sequence of beat patterns that the learnt transitions "
     "and the constraints allow, and no other; no state reachable from the start is without a successor. Sequences keep the "
     "length of the target and the beats that were not to vary, and the learnt model is not changed.",
     ["inputs", "histories"], "every small model, kick pattern, rhythm and mask of beats, and every random choice of the generation",
     "no test of the repository runs these models",
     [BAS], [("constrainMM, variationMM", BAS), ("generateBassRhythm, generateBassRhythmVariation", BAS)], observe=["the constrained matrices, and the sequences generated over all choices"])

prop("C31", "Basslines are binarised and generated without loss",
     "Binarising a bassline gives, beat by beat, exactly the quarters of each beat that are nearest to its onsets within the beat, the same for equal rhythms in any "
     "file resolution and order of events; identifiers of beat patterns translate to onsets and back without loss. Generated rhythms consist of learnt beats and each "
     "draw follows its distribution exactly. Normalizing a matrix gives rows that add up to one in the same proportions.",
     ["inputs"], "every beat pattern, resolution and length; every random choice",
     "no test of the repository runs these functions",
     [BAS], [("binaryBeatPattern", BAS), ("translate_rhythm", BAS), ("pdf_sampling", BAS), ("normalize", BAS)], observe=["the binary rhythms and generated sequences"])

prop("C32", "File helpers return exactly the files that match",
     "search_files returns the files named and the entries of the folders named, also in lists of lists, whose names end with one of the suffixes, and fails for what does not exist; match_files returns those of a list whose base name "
     "equals the given one once the suffixes are gone; strip_suffix removes a suffix once and only at the end. Characters such as brackets in names stand for themselves.",
     ["inputs"], "every folder, list of paths, name and suffix over a small alphabet",
     "no test calls them",
     [UTI], [("search_files", UTI), ("match_files", UTI), ("strip_suffix", UTI)], observe=["the lists returned"])

prop("C33", "Names of pitches, keys and chords denote the notes they stand for",
     "Pitch names, pitch classes, base-40 numbers and key signatures translate into each other consistently for every note of MIDI and both spellings. "
     "Each chord type, from every root, spells the right letters and accidentals, which sound its semitones, and each General MIDI percussion name belongs to its standard note.",
     ["inputs"], "all 128 pitches, 12 pitch classes, both spellings, all chord types and keys",
     "no test reads the tables as a whole",
     [UTI, DEF], [("pitch2name", UTI), ("pc2note, pc2base40", UTI), ("makeChord", UTI), ("chord types, drum names and keys", DEF)], observe=["names and numbers"])

prop("C34", "Chordify groups exactly the notes that sound together",
     "Chordify gives one chord per distinct onset of the pattern, in time order, that carries the pitches, velocities and tags of all the notes that sound at it, each once, and lasts "
     "as long as one of the notes that start there. The original pattern is not changed, the result has its fields, and does not depend on the order of the events.",
     ["inputs"], ALL_PATTERNS, "one test prints the chords of one file",
     [TRA, P], [("Chordify", TRA)], observe=["the chord events"])

prop("C35", "Every edit keeps its own promise after any history of edits",
     "Whatever sequence of edits a pattern has been through, each next edit does to it exactly what it does to a freshly built pattern with the "
     "same events and fields, and each query answers alike: a pattern has no hidden state beyond what it shows.",
     ["histories"], "every sequence of edits up to a depth, on the same object, from several starting patterns",
     "tests apply one edit to a new pattern",
     [P], [("all edits of Pattern", P)], state=[("events, duration and fields", "visible state", "Pattern")], observe=["the pattern after each edit, against a rebuilt one"])

prop("C36", "A save that breaks off is never read as something else",
     "Whatever was in a pattern, JSON, pickle or style file, and wherever a new save of it breaks off (the file cut at any byte, or the disk full at any byte), "
     "reading it back gives the old or the new content in full, or fails: never other content, or part of it. A MIDI file that is cut is refused, or gives the first notes of the saved pattern, as they were but for those under way.",
     ["crash_points"], "every byte at which a write can stop, with and without an older file of the same name",
     "no test interrupts a save",
     [IO, STY, MID], [("toJSONFile, toPickleFile, toMidiFile and their readers", IO), ("saveToJSON, loadFromJSON", STY), ("write_midifile, read_midifile", MID)],
     state=[("the file on disk", "what a crash leaves", "the folder saved to")], observe=["what the readers give for every prefix of a save"])

prop("C37", "Python 2 and Python 3 give the same results and read each other's files",
     "Every edit, query, selection, import, export, descriptor, transformer and style gives the same result for the same pattern under Python 2 and Python 3, or is refused by both. "
     "JSON, MIDI and style files written under one are read under the other as they are under the first.",
     ["inputs", "configurations"], "every operation of the library on every pattern of a family, under both interpreters",
     "the tests run under one interpreter at a time and compare nothing across",
     [P, IO, MID, STY, DES, TRA], [("the operations of Pattern", P), ("readers and writers", IO), ("descriptors, transformers and styles", DES)],
     observe=["results and files under CPython 3 and Jython 2.7, compared bit by bit"])

prop("C38", "A stored bass model generates like the one that was learnt",
     "The matrices of a model written with write2pickle, and the whole model, come back the same, in the folder and under the name given, and generate each bassline, free or constrained, with the "
     "same probability; a stored model that goes on learning ends like the original. A constrained model kept as returned, or stored as JSON, generates as generateBassRhythm does from the model and the kicks.",
     ["inputs", "histories"], "every small model, constraint and random choice of the generation; every sequence of writes",
     "no test stores a bass model",
     [BAS, IO], [("write2pickle", IO), ("_generateBassRhythm, constrainMM", BAS)], observe=["the files, and the distributions of generated basslines"])

prop("C39", "No operation leaves a trace on other patterns or on what comes later",
     "Whatever was done before, to other patterns or to copies, in the same process and folder, each operation gives what it gives alone in a new process. Queries, exports and "
     "selections leave their pattern as it was and answer the same when asked again; descriptors keep nothing from one pattern to the next, and the tables of the modules never change.",
     ["histories"], "every ordered pair of operations of the library, every sequence of patterns per descriptor",
     "tests run one operation on a new pattern each",
     [P, IO, STY, DES, TRA], [("all operations of Pattern", P), ("module tables", DEF), ("descriptors", DES)],
     state=[("module and class level state", "what could carry over", "all modules")], observe=["results of each operation after each other, against those in a process of its own"])

prop("C40", "A pattern reads as the sequence of its events",
     "Length, indexing, slicing, iteration, membership, count and assignment of a pattern are those of its list of events, in order and by identity, and reading changes nothing. Events and patterns are equal when all "
     "compared fields are, != is the opposite, and other objects are never equal. The text of a pattern has its fields and one line per event with its tag, pitch, velocity, start and duration; new patterns share nothing.",
     ["inputs"], ALL_PATTERNS + ", every index and slice",
     "the tests use an index here and there",
     [P], [("Pattern.__getitem__, __setitem__, __len__, __eq__, __repr__", P), ("Event.__eq__, __repr__", P), ("patternToList", P)], observe=["the answers of the sequence protocol"])

prop("C41", "Operations on times, pitches and tags agree with one another in any order",
     "Every edit, slicing and selection treats a pattern whose pitches are all raised, or whose times are all stretched along with the sizes asked for, as it treats the original, raised or stretched; edits that treat tags apart "
     "give the same for the part of one tag as for the whole. Edits that settle change nothing when repeated, and no result depends on the order of the list, but for ties; MIDI and JSON files keep these laws.",
     ["inputs", "histories"], ALL_PATTERNS + ", every pair of an operation and a raise, stretch, selection or repetition",
     "tests look at one operation at a time",
     [P, IO, TRA], [("all operations of Pattern", P), ("toMidiFile, fromMidiFile", IO), ("Chordify", TRA)], observe=["both orders of two operations, compared"])

prop("C42", "A printed grid shows, block by block, what sounds",
     "printASCIIGrid prints one line for each tag of the pattern, with as many marks as whole blocks fit in its duration: a rest where nothing of that tag sounds when the block starts (silences are rests), "
     "an onset in the first block of each event and a hold in its later blocks, as long as the events of a tag do not overlap. Printing changes nothing, and the lines do not depend on the order of the events.",
     ["inputs", "histories"], "every pattern of voices of notes and rests, with tags that are texts or tuples, every block size",
     "no test of the repository prints a grid",
     [P], [("Pattern.printASCIIGrid", P)], observe=["the standard output"])

prop("C43", "Logging never changes results, and each message reaches every handler as is",
     "Every operation gives the same result whatever level the loggers of gsapi have, silent or not, with or without colours. Each message at or above the level of its logger is written to the console once, with its logger and level "
     "and with colours only when they are on, after any history of switches; other handlers get the same record with its plain level.",
     ["inputs", "histories"], "every operation at every level, every history of levels, colours and messages",
     "the tests run at one level and do not look at the messages",
     ["gsapi/gslog.py", P, IO, STY, DAT], [("ColoredFormatter, ColoredLogger", "gsapi/gslog.py"), ("setDefaultLoggingLevel, setUseColoredOutput", "gsapi/gslog.py"), ("the calls of loggers", IO)],
     observe=["results at each level", "the console", "a handler of the user's own"])

TECH = {
    None: "explicit-state bounded exhaustive enumeration of inputs and operation histories on the real code, against a reference model",
    "C23": "exhaustive enumeration of every random choice of the real generator, compared with the exact distribution of a model",
    "C25": "exhaustive enumeration of request histories and every random choice on the real code, against its invariants",
    "C30": "exhaustive enumeration of models, constraints and every random choice on the real code, against all solutions",
    "C36": "exhaustive enumeration of crash points: every byte at which a save can stop, on the real readers and writers",
    "C37": "bounded exhaustive enumeration of inputs and operations in lockstep under two interpreters, compared bit by bit",
    "C38": "exhaustive enumeration of models, writes and every random choice on the real code, compared as distributions",
    "C39": "exhaustive enumeration of all ordered pairs of operations, each in a forked process, against runs of one operation alone",
    "C35": "bounded exhaustive search of edit histories on the real object, in lockstep with a rebuilt one and relational contracts",
}
NOTE = ("Every case within the bounds that DESIGN.md and the evidence give per suite is executed on the real code under CPython 3.12%s "
        "and compared with an independent reference; nothing is sampled. Trusts the reference, and that what breaks shows "
        "within the bounds.")

done = [p for p in PROPS if os.path.exists(os.path.join(VERIF, "mc", "props", p["id"].lower() + ".py"))]

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in PROPS:
        anchors = {"files": p["files"], "mechanism": [dict(name=a, where=b.split(":")[0] if ":" not in b else b) for a, b in p["mechanism"]],
                   "observe_at": list(p["observe"]), "hook_needed": None}
        if p["state"]:
            anchors["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, (p["id"], p["statement"])
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": anchors}) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{"property": p["id"], "quick_cmd": "./check %s quick" % p["id"],
                "thorough_cmd": "./check %s thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                "technique": TECH.get(p["id"], TECH[None]), "level": "model_checking",
                "level_note": NOTE % ("" if p["id"] in ("C29", "C30", "C31", "C38") else " and Jython 2.7")} for p in done],
    "not_applicable": [{"property": p["id"], "reason": "no check has been built for it"} for p in PROPS if p not in done],
    "notes": "No hooks in /repo: random choices are enumerated by replacing the functions of the random modules in the worker "
             "processes. Known findings and repaired defects are in known_findings.txt.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
