"""writes known_findings.jsonl: repaired defects (text lines) and open findings (JSON lines)"""
import json, os
F = [
 ("P01", "f744ce5", "a number list format string of length 0 made ListFormat/number list parsing panic (index out of range)"),
 ("P01", "d658487", "parse_rich_text indexed text_run_data_object past its end (or underflowed) when embedded ink references are missing"),
 ("P02", "fd7dc4c", "a revision chain that refers back to one of its own members made ObjectSpace::parse loop forever"),
 ("P19", "dadcb84", "ink stroke width and height were assigned from each other's properties"),
 ("P31", "52f40a2", "vertical ink scaling was read from the horizontal scaling property"),
 ("P10", "c3c9a96", "the end header of data element fragments was left unread"),
 ("P10", "f976c97", "object group metadata declarations (type 0x79) were ended by an 8-bit end header, which cannot hold the type: every object group with metadata was rejected"),
 ("P22", "34c0ee9", "page size was not read as the 32-bit value it is stored as"),
 ("P15", "899f1df", "object space references were resolved by index only, ignoring the position of their property in the id stream, and resolution errors were swallowed"),
 ("P15", "2ee1005", "reference arrays longer than the rest of their id stream were silently shortened"),
 ("P15", "22362f1", "object space ids of nested property sets were counted in the object id stream"),
 ("P15", "5090ec3", "nested property sets (note tags, text runs) all resolved with the same ids"),
 ("P28", "0f5e83a", "the header cell was resolved through another cell's mapping (hash-map order)"),
 ("P28", "8f6e991", "an arbitrary storage index or manifest was used when several are present"),
 ("P28", "42a5d0e", "a revision was looked up by serial number even when that is ambiguous (hash-map order)"),
 ("P28", "5b7b4b9", "the table of contents of a section group depended on the directory order"),
 ("P28", "5f3f03d", "object spaces were parsed in hash-map order (which error is reported varied)"),
 ("P14", "f29a08f", "roots and objects of older revisions replaced those of newer revisions"),
 ("P31", "9cbbe3a", "incomplete and oversized multi-byte integers were accepted (wrong values)"),
 ("P03", "760250f", "deeply nested property sets overflowed the stack"),
 ("P03", "164a4d0", "outlines or tables that contain themselves (or are nested very deeply) overflowed the stack"),
 ("P03", "5477dcd", "table of contents entries that contain themselves overflowed the stack"),
 ("P03", "9732541", "very deeply nested section group folders overflowed the stack"),
]
P3 = []
out = ["# fixed: repaired defects of the pinned commit; open findings follow as JSON lines"]
for p, c, w in F:
    out.append("fixed: property=%s %s %s" % (p, c, w))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
op = os.path.join(here, "tools", "open_findings.json")
if os.path.exists(op):
    for d in json.load(open(op)):
        out.append(json.dumps(d))
open(os.path.join(here, "known_findings.jsonl"), "w").write("\n".join(out) + "\n")
