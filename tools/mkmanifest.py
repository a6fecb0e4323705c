#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one entry per property in NOTES."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
REF = "runtime differential monitoring against an executable reference model of the grammar"
NOTES = {
 "C01": (REF + " (verdict of every text)", "every systematic text and the generated ones get the same verdict from parser and model; trusts the model; texts where abort and backtracking disagree (a listed finding) are excluded"),
 "C02": (REF + " (tree)", "tree equality node by node on all accepted texts explored; trusts the model and the tree reader harness/obs"),
 "C03": (REF + " (comments)", "the comments of every element are compared with the model on all accepted texts explored"),
 "C04": ("metamorphic runtime monitoring: each text parsed with and without the option", "verdict, error, report, positions and tree are compared on all texts explored"),
 "C05": (REF + " (warnings)", "number, order and position of the warnings are compared with the model on all accepted texts explored"),
 "C06": (REF + " (positions)", "every node position is compared with the model on all accepted texts explored"),
 "C07": ("round trip monitoring: the formatted text is read by the reference model and by the parser and compared with the original", "on all accepted texts explored, with and without comments; two listed findings are excluded by a predicate on the input"),
 "C08": ("round trip monitoring of comments through the reference model", "on all accepted texts with a section explored"),
 "C09": ("metamorphic runtime monitoring: formatting the formatted text", "byte equality on all accepted texts explored"),
 "C10": ("metamorphic runtime monitoring with white space variants, online layout checker on every output line", "on all accepted texts explored, two variants each"),
 "C11": ("online monitor of panics, of the parser's step counter and of the process (crash, hang), over growth families and random bytes", "linear growth is judged on doublings of 120 nesting and repetition families and of random pieces; no bound is proved"),
 "C12": ("online checker of error and report positions; fault placement: damage at a known place of a valid text", "positions of all rejected texts explored; exact places for the planted damage only"),
 "C13": ("differential runtime monitoring of the three entry points with misbehaving readers (chunking, read errors)", "on all texts explored"),
 "C14": ("metamorphic runtime monitoring: each text parsed with and without random option combinations; texts with invalid bytes against the reference model", "on all texts explored; warnings under memoization are not compared"),
 "C15": ("Go race detector plus differential monitoring: results of concurrent calls against those of the same calls run alone, and report snapshots taken at any time against the reports of single parses", "on the schedules explored (number of overlapping calls and of snapshots in the evidence), not all interleavings"),
 "C16": ("metamorphic runtime monitoring of operation histories: each result compared with that of a fresh process, kept trees re-fingerprinted after every step", "on all histories explored, up to some 40 operations each"),
 "C17": ("online trace checker of the callback events of each walk against a recursive reference walk", "all block lists up to a small size and random larger ones"),
 "C18": ("online trace checker of walks with edits against a list model of the documented cursor semantics", "all edit programs on small lists and random ones on larger trees; lists sharing storage are excluded"),
 "C19": ("runtime checking of an inverse law and of a character-level specification", "all short strings over the critical characters and random long ones"),
 "C20": ("runtime checking of quoted literals by reading them back with the reference model and the parser", "all short strings over the critical characters and random ones"),
 "C21": ("differential runtime monitoring of Plugin.ID against the reference model; error chains against their construction", "on all plugins and error chains explored"),
 "C22": ("offline checker over recorded runs of the mustache program: exit status, output and file system snapshots against the expectation per file", "on all directories explored"),
 "C23": ("offline checker over recorded runs of the mustache program: exit status, output and file system snapshots against the expectation per file", "on all directories explored"),
 "C24": ("offline checker over recorded runs of the mustache program: file system snapshots (content, mode, inode, links) before and after against the expectation per file", "on all directories explored, two runs each"),
 "C25": ("offline checker over recorded runs of the mustache program: every line of the report against the reference model's list of offenders", "on all directories explored"),
 "C26": ("offline checker over recorded runs of the mustache program: rewritten files compared with the originals through the reference model", "on all directories explored, two or three runs each"),
 "C27": ("fault injection into runs of the mustache program (12 faults, every command and position), with the checkers of C22 to C26 as oracle", "all combinations of command, fault and up to three files before and after, several contents each; a listed finding is excluded: a failing rewrite truncates the file"),
 "C28": ("round trip monitoring of constructed and edited trees through the reference model and the parser", "on all trees explored"),
 "C29": ("metamorphic runtime monitoring of limits around the step count of each text", "on all texts explored, up to eight limits each"),
 "C30": ("round trip monitoring of single nodes through the reference model and the parser", "on all nodes of the trees explored (up to 400 per tree)"),
 "C31": ("offline checker over recorded runs of the mustache program: exit status, output and file system snapshots for flag layouts and mistakes", "on all command lines and directories explored"),
 "C32": ("differential runtime monitoring against the reference model started at the same rule", "on all pieces of text explored"),
 "C33": ("online trace checker: a push-down monitor reads the debug output of each parse and counts it against the statistics", "on all parses explored (texts up to 1500 bytes)"),
 "C34": ("metamorphic runtime monitoring: each rejected text is cut off at the error and continued with listed and unlisted items", "on all errors explored, some 15 continuations each"),
}
checks, na = [], []
for p in props:
    if p in NOTES:
        tech, note = NOTES[p]
        checks.append({"property": p, "quick_cmd": f"./run.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p}",
                       "technique": tech, "level": "exploration", "level_note": note})
    else:
        na.append({"property": p, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed: the monitors observe the public interface of the packages and of the mustache program. known-findings.txt lists recorded and repaired defects."}
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
