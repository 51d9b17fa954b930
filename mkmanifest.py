"""writes MANIFEST.json from the table below"""
import json
L = {
 "C01": ("TLA+ model of the project walk, replayed on scratch trees with audit-hook traces", "exhaustive in the bounded model; sampled behaviours of the model replayed into the real converter"),
 "C02": ("TLA+ model of the project walk; outputs compared with the specified image", "as C01"),
 "C03": ("TLA+ model of selection; outputs and opened files validated against it", "as C01"),
 "C05": ("TLA+ model of converter sessions; histories generated by TLC, replayed in one process and compared with fresh processes", "every history of the bounded model of length up to 3, sampled longer ones"),
 "C06": ("TLA+ model of repeated runs under different environments (hash seed, listing order, places), replayed on real runs", "sampled projects, all environment pairs of the model"),
 "C07": ("TLA+ model of the visit of uses and its books; programs generated by TLC, converted, and replayed on the model", "every place x kind of use, every nested pair of kinds, sampled deeper programs"),
 "C08": ("as C07; marks of the output lines validated against the model", "as C07"),
 "C09": ("as C07; marks of the output lines validated against the model", "as C07"),
 "C10": ("TLA+ model of import statements and spellings; equivalent spellings generated by TLC and their conversions compared", "every spelling of the bounded model"),
 "C11": ("TLA+ model of import statements; bindings of the output validated against it", "every spelling of the bounded model"),
 "C12": ("TLA+ model of import statements and of free/bound names; names of outputs validated against it", "model programs and a sweep over 12 000 snippets"),
 "C13": ("TLA+ model of binding arguments to parameters over the contract of every API; calls generated by TLC, converted, and compared with what the model prescribes", "every API x call forms of the bounded model (about 111 000 calls)"),
 "C22": ("TLA+ table of every API of the mapping, alias and unknown name; TLC generates the uses, the conversions are validated against the table", "every API, alias, member and a set of unknown names, as call and as plain reference"),
 "C15": ("as C07; converted expressions compared with the composition the model prescribes", "as C07"),
 "C18": ("as C07 in minimal mode", "as C07"),
 "C16": ("TLA+ model of blocks, statements and generated auxiliary statements; programs generated by TLC, converted, and read back statement by statement", "every kind of use in every statement form and compound statement, sampled deeper programs"),
 "C17": ("TLA+ model of runs, files, uses and the helpers they need; histories generated by TLC, converted in one process, the helper code left behind validated against the model", "every helper x head x place, every pair of uses, sampled directories and multi-run histories"),
 "C14": ("TLA+ grammar of Python with values of other libraries; programs derived by TLC, converted, trees compared with the image the grammar prescribes", "every production in every slot up to depth 2, sampled deeper derivations; library files as recorded traces"),
 "C19": ("TLA+ grammar of Python, its physical file forms and the forms of use of a name; programs derived by TLC, converted, parsed and compared with the image", "every production in every slot up to depth 2, sampled deeper derivations, every API x form of use (quick: one in 24), corpus and library files"),
 "C20": ("TLA+ model of the whole tool; every combination of presentation settings generated by TLC, run, and the runs replayed on the model; larger programs under two presentations", "every combination of the presentation settings x modes x projects (quick: two runs per combination), sampled programs of the Convert and Grammar models, corpus"),
 "C24": ("TLA+ model of the command line and the whole tool; command lines generated by TLC, run through the tool's main, logs, tables and outputs replayed on the model", "every command line with up to two options, sampled longer ones"),
 "C21": ("TLA+ model of repeated passes over a program; programs and sequences of passes generated by TLC, converted again and again, and the passes replayed on the model", "every use x place (quick: four places), every nested pair, all sequences of passes in two modes up to length 2-4; sampled helper, block, grammar programs and projects, every converted API of the contract, corpus, as opaque programs"),
 "C25": ("TLA+ model of a project with C++ extension wrappers (set-up, wrapper classes, files importing them); projects generated by TLC, converted, and compared with what the model prescribes", "bounded projects: every spelling of set-up, wrapper and use, one and two files, file orders; sampled larger ones"),
 "C04": ("TLA+ model of failing files at every walk position", "as C01; failures are unreadable, undecodable and unparsable files"),
}
NA = {
 "C23": "numeric agreement of two tensor libraries is a question of floating-point results on tensor inputs, which an explicit-state TLA+ specification does not model; the unit tests sample it",
}
import os
done = set(L)
allp = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": p, "quick_cmd": "/opt/venv/bin/python check.py %s quick" % p, "thorough_cmd": "/opt/venv/bin/python check.py %s thorough" % p,
                 "technique": L[p][0], "level": "model_checking", "level_note": L[p][1]} for p in allp if p in L],
     "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in allp if p not in L],
     "notes": "No hooks in /repo: the checks observe output files, return values, log text and audit events. Specification language: TLA+ (TLC)."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
