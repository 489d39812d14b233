"""Writes /verif/known_findings.json: defects found by the checks and what became of them."""
import json, os
F = [
 ("446b337", ["S01", "S02", "S03", "S05"], "with LineTokenizer a version read through more than one delta came back wrong or raised: pieces encoded one by one give other tokens than the whole text"),
 ("6876e20", ["T02", "T03", "T01"], "diff() and merged() shared one default tokenizer between all calls: later calls changed the pending lazy results and memory of earlier ones"),
 ("9a89f25", ["T02", "T03"], "merged() raised TypeError for texts encoded by a tokenizer because decode_changes() was called with an argument it does not take"),
 ("b4c6efb", ["M01"], "adding a manifest that names a file its base manifest does not have raised KeyError after a part of it was stored"),
 ("9fbf7a2", ["C02"], "--strikeout raised AttributeError and left the option set for later invocations in the process"),
 ("6ec4bdd", ["S05", "S01", "S02", "M01"], "adding an existing tag overwrote it, adding on an unknown base was accepted, and a fork from an older version made other versions unreadable"),
 ("e2afc4b", ["S02", "S03"], "a failure or crash between the writes of an addition left an older version unreadable"),
 ("466f32b", ["S05"], "version_info() of a version whose addition failed reported information for a tag that is not in the store"),
 ("450a5a2", ["S05", "D01"], "version_info() raised on database-backed stores: DBCollection lacked the mapping interface"),
 ("6ce9a1e", ["D05", "D04"], "iterating a DBCollection held a read lock while suspended and its finalisation could commit or roll back another operation"),
 ("ab07f05", ["D03", "S02", "S03"], "DBTree.change_parent() updated links and metrics in separate transactions: a failure or crash between them left a wrong tree"),
 ("d0ab7b4", ["C02"], "a diff or merge command that failed left its output file open with buffered text that could overwrite what a later invocation wrote"),
 ("f2eb281", ["C01"], "an input from a pipe that is not UTF-8 was opened and read a second time, when nothing was left in it: the command succeeded with an empty input"),
 ("aa499c6", ["C01"], "a command started with standard output closed dropped its output and succeeded"),
 ("9570a87", ["S01"], "contents that are not UTF-8 were accepted by stores with the character or symbol tokenizer, and could not be read afterwards"),
 ("00c4f4b", ["S01"], "find_changeset() and the streams of a Changeset recursed once per common part: adding a version that differs from its base in about a thousand places raised RecursionError"),
 ("ecfb320", ["C02"], "brackets and backslashes next to each other in a text, or brackets in a file name, raised MarkupError or were shown wrong on the console"),
 ("8e4fbc1", ["S06"], "an interrupt inside MemoryTree.change_parent() left a height that is out of date: every later addition on that base raised ValueError"),
]
out = []
for commit, props, what in F:
    for p in props:
        out.append({"status": "fixed", "property": p, "commit": commit, "what": what,
                    "record": f"fixed: property={p} {commit} {what}"})
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
with open(path, "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
