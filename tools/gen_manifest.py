#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
"C01":("coverage-guided fuzzing of every text-taking entry point with an executed-edge budget for termination","No panic, abort or runaway execution on any generated input, including 2 MB runs and 200000-deep nesting on a limited stack."),
"C02":("model-based generation: random document model, random surface rendering, parsed DOM compared with the model","The oracle is the generating model; it never consults the parser."),
"C03":("round-trip property: build by API, write, reread, compare with a content model","The oracle is the model the DOM was built from plus the documented whitespace rule."),
"C04":("coverage-guided fuzzing with round-trip and fixed-point oracle","Every accepted input is rewritten and reread; the compared relation is computed from observed content, not by the crate's own equality alone."),
"C05":("generated fault injection into well-formed documents, and differential testing against an independent reference parser","Faulty documents must be rejected; the reference parser classifies mutated ones and answers 'unknown' outside the claimed classes."),
"C06":("differential testing against reference escaping/decoding, round-trip, exhaustive sweep of all code points","Exhaustive over single scalar values; sampled over strings."),
"C07":("metamorphic testing over pairs of indents, with a whitespace model as oracle","Compares the content of the same document written with different indents, and with the model."),
"C08":("differential testing against a reference serializer, metamorphic over insertion orders and hash seeds","The hash seeds of std's maps are controlled by the harness, so order dependence is sought, not waited for."),
"C09":("differential testing against a reference namespace resolver on generated trees","Oracle: textbook scope resolution on the generating model."),
"C10":("stateful generation of assembly orders with a round-trip oracle","Compares namespaces before and after writing and parsing, and with the reference resolver."),
"C11":("stateful model-based testing of edit sequences","After every operation the whole DOM and the returned value are compared with a list/map model."),
"C12":("differential testing of queries against a reference traversal, by node address","Exact multisets/sequences of node addresses are compared."),
"C13":("exhaustive sweep of all Unicode scalar values plus generated strings against the XML name grammar","Exhaustive over one- and two-character names at each position; sampled for longer names and content."),
"C14":("fault injection at every byte position of generated reads and writes, split/interrupt schedules, file-system cases in a scratch directory","Enumerates the failure position over every byte of short inputs; sampled positions for longer ones."),
"C15":("metamorphic testing over pairs that are equal or differ by one generated edit, and edits after cloning","The harness decides equality on its own content model."),
"C16":("generated nodes and trees with invariants over all views and casts","All casts of all generated nodes are tried."),
"C17":("round-trip property over generated prologs and epilogs","Expected declaration and DTDs are the generated strings."),
"C18":("generated fault injection with a position oracle","The expected line and column are computed from where the generator placed the fault."),
"C19":("generated failing calls and error values, with the expected kind and fields computed from the cause","The expected error follows from how the failing call was generated."),
"C21":("metamorphic, stateful: one content made in several ways, then the same generated sequence of edits and queries on all of them","The twins are compared with each other in results and state after every step; what the content should be is left to the other checks."),
"C20":("metamorphic testing of call histories and parallel runs against the same call alone in a fresh (forked) process","The oracle is the crate itself in a process without history; thread schedules are whatever the machine gives, not enumerated."),
}
checks=[]
for k,(t,n) in sorted(T.items()):
    checks.append({"property":k,"quick_cmd":f"./check.sh {k}","thorough_cmd":f"VERIF_TIER=thorough ./check.sh {k}","technique":"property-based testing: "+t,
      "level":"fault_enumeration" if k=="C14" else "exploration",
      "level_note":n+" Generated-input search: evidence for the cases run, no proof. Trusts the harness models and rustc."})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":[],
"notes":"No hooks in /repo. The harness (harness/, crate kv) is built with SanitizerCoverage instrumentation of kiss_xml only, from /repo's working tree. A replay file is rerun with './check.sh C01 <file>'. Fixed and unfixed findings: known_findings.txt."}
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","MANIFEST.json"),"w").write(json.dumps(m,indent=1,ensure_ascii=False)+"\n")
