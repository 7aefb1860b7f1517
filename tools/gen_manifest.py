#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "explicit-state model checking: breadth-first search of a reference automaton, every transition replayed on the real decoder"
ENUM = "bounded-exhaustive exploration of the real code against a reference model"
C = {
    "C01": ("model_checking", MODEL + "; panics, aborts and hangs are violations, in builds with and without checks", "No listed decoder crashes or hangs on any explored byte string: all short strings, every automaton transition, every field product and every single-byte replacement and cut of 100 meter captures. Longer strings are covered only as far as they drive the automaton through the same states."),
    "C02": ("model_checking", MODEL, "All transitions of the link frame automaton with shortest completion, and products of length, control, address, checksum and payload. Decodability of the payload itself is taken from the code."),
    "C03": ("fault_enumeration", "exhaustive single-fault injection into valid frames", "Every single-byte replacement, insertion, deletion, cut and extension at every position of the listed frames."),
    "C04": ("exploration", ENUM + " (all control bytes x addresses)", "Complete over control byte and address for short frames and a set of long frames."),
    "C05": ("model_checking", MODEL, "All CI values x header forms x body lengths and contents as listed; bodies with own structure are delegated to the code's own decoders."),
    "C06": ("exploration", ENUM + " (all values of all pairs of header bytes)", "Every pair of header bytes takes all values against several backgrounds; single fields are complete."),
    "C07": ("exploration", ENUM + " (manufacturer x version x type x identification)", "Complete over manufacturer; version, type and identification are complete for the manufacturers with products and by class otherwise."),
    "C08": ("model_checking", MODEL + "; all item sequences to a depth", "All transitions of the frame automaton up to 254 bytes. The meaning of single records is taken from the code's own record decoder."),
    "C09": ("exploration", "exhaustive enumeration of histories (sequences of records and of decode calls) with a differential oracle", "All sequences up to the stated depth over the stated alphabets, each result compared with that of the item on its own (in a fresh process for calls)."),
    "C10": ("model_checking", MODEL, "Complete over DIF and the first extensions; chains to the limit of 10 by all transitions and by alphabets."),
    "C11": ("exploration", ENUM + " (all triples of bytes)", "Complete over the first three bytes of value information, which determine the quantity. Trusts the transcription of the tables in the model."),
    "C12": ("model_checking", MODEL, "All transitions of the value information automaton, chains up to 250 extensions, plain texts by all short strings and classes."),
    "C13": ("model_checking", MODEL, "All data types x quantities x lengths present, and all transitions of the record automaton."),
    "C14": ("exploration", ENUM, "Complete for up to 4 bytes; all values of all pairs of bytes and classes of all triples for wider integers."),
    "C15": ("exploration", ENUM, "Complete for up to 3 bytes (thorough: 4); all values of all pairs of bytes and classes of all triples for wider numbers."),
    "C16": ("model_checking", MODEL, "All length bytes x contents as listed, all transitions after the length byte."),
    "C17": ("exploration", ENUM + " (bit patterns of single precision)", "Complete: all 2^32 patterns. Cuts and quantities by classes."),
    "C18": ("exploration", ENUM, "Complete over two byte dates and four byte date-times; cuts and records by classes."),
    "C19": ("exploration", ENUM, "Complete over three byte times; six byte date/times by all values of all triples of bytes and classes of all six."),
    "C20": ("exploration", ENUM, "Complete: all 2^32 values; cuts and records by classes."),
    "C21": ("model_checking", MODEL, "All subcode sequences to length 3, nibble classes to length 10, all transitions of the automaton."),
    "C22": ("model_checking", MODEL, "All error codes x following bytes as listed. The record of a dynamic error is taken from the code's own record decoder."),
    "C23": ("model_checking", "exhaustive enumeration of every prefix of every explored stream against the frame automaton", "All prefixes of all explored frames, mutated frames and short strings."),
    "C24": ("exploration", "exhaustive enumeration of context sequences against a reference renderer", "All sequences of contexts to the stated depth with all kinds of causes."),
    "C25": ("exploration", "exhaustive enumeration of programs: all 640 patterns expanded by the compiler x all 256 bytes", "Complete."),
    "C26": ("exploration", "exhaustive enumeration of dump texts and of sequences of files given to the tool", "All two character texts, all bytes in all positions and cases, token sequences to depth 4, all sequences of up to 3 files."),
    "C27": ("exploration", "stateless model checking of the real threads under a controlled scheduler that single-steps them: all placements of one preemption, of one in each of two threads, and all round-robin schedules with the listed turns", "Every instruction of the listed calls as the only preemption, with complete decodes by another thread there, warm and on first use; two preemptions for the parts that take few instructions; turns of up to eight threads. Interleavings with more preemptions, weak memory orders and stops inside of the C library are not explored."),
    "C28": ("exploration", ENUM + ": exact counts of allocated bytes and executed instructions, against bounds proportional to the input", "Allocation is counted for all inputs of the exploration of C01. Instructions (single-stepped, of the program without the C library) for the listed inputs, growth by repeating units 1, 2, 4 and 8 times. Work inside of the C library only through the processor time of inputs of hundreds of kilobytes."),
    "C29": ("model_checking", MODEL + "; the labels of each rejection are compared with the automaton's location", "All transitions of the link and record automata at which an input can be rejected, in all kinds of surroundings; headers by pairs of bytes, dates and times by pairs of bytes, meter frames with every byte replaced, inserted or removed. Labels outside of the listed vocabulary are not judged."),
    "C30": ("exploration", "exhaustive enumeration of inputs, of their cuts and of what follows them, on the real code; the oracle is the code itself on the same bytes in other surroundings", "All strings to length 3 for records, blocks and texts (4 in the thorough tier), all transitions of the record automaton, pairs of bytes of the fixed-size values, all widths, real meter data from every position; a dozen strings that follow, and all single bytes for the smaller spaces."),
    "C31": ("exploration", "exhaustive enumeration of sequences of operations on errors against a list of what was recorded", "All sequences of up to 5 (thorough: 6) of 16 operations from 14 kinds of new errors; long regular ones. An error of the parser library with its own kind of contexts and a cause cannot hand its cause over, and is not covered."),
}
NA = {}
m = {
    "version": 1,
    "setup_cmd": "bash build.sh release mc test_parse && bash build.sh plain mc",
    "checks": [
        {
            "property": k,
            "quick_cmd": f"bash check.sh {k} quick",
            "thorough_cmd": f"bash check.sh {k} thorough",
            "technique": t,
            "level": l,
            "level_note": n,
        }
        for k, (l, t, n) in C.items()
    ],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks: everything is observed through the public interface. Known findings: known_findings.txt.",
}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
