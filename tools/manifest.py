#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MC, FE, EX = "model_checking", "fault_enumeration", "exploration"
CHECKS = {
 "C01": (MC, "bounded exhaustive exploration of schema x value, every model trace replayed on the real encoder",
         "Exhaustive within the bounds (schemas <= 4 nodes quick / 5 thorough, values smallest first to a cap, boundary families). Trusts the reference encoder written from FORMAT.txt."),
 "C02": (MC, "bounded exhaustive exploration of schema x value and of message sequences on the real encoder and decoder",
         "Exhaustive within the bounds, including all ordered pairs and triples of a message menu in one stream. Oracle: bitwise equality and bytes left."),
 "C03": (MC, "exhaustive exploration of the byte strings a decoder can be given, pruned only where the reference has decided",
         "All byte strings over the stated alphabets, level by level to a budget, for every schema of the universe. Trusts the reference decoder written from FORMAT.txt."),
 "C05": (MC, "explicit-state exploration of the encoder's call protocol, every transition replayed on the real encoder",
         "All call sequences (breadth-first, states merged by model state and coder debug text; unmerged on the smaller universe) against a reference state machine, each continued to the end of the message."),
 "C06": (MC, "explicit-state exploration of the decoder's call protocol and source contents, every transition replayed on the real decoder",
         "As C05, each call met with every source content of a menu (valid, malformed, cut short), and the needed schema asked for in every state."),
 "C07": (MC, "explicit-state exploration; every rejected call, and pair of calls, replayed on the real coder and compared with not having made it",
         "In every reached state all rejected calls alone and in sequence in both orders, then every legal call and the completion; ordered pairs on a smaller universe."),
 "C08": (MC, "explicit-state exploration with fault enumeration; every failing call followed by every call on the real coder",
         "In every reached state every failing content and every byte of every call at which the stream can fail, followed by the whole alphabet in both orders (each call alone on a smaller universe)."),
 "C09": (FE, "exhaustive enumeration of stream failure points on the real coders",
         "Every byte offset x nine ways to fail x three ways of writing and five of reading, for every message of the stated space."),
 "C10": (FE, "exhaustive enumeration of fragmentations and interruptions of the stream on the real coders",
         "All cut sets for messages up to the length bound, every chunk size beyond, interruption patterns, through all ways of writing and reading."),
 "C11": (MC, "bounded exploration of recursive schemas, values and walks over recurse nodes; the real coder under the schema against the real coder under its explicit unfolding",
         "Every walk over recurse nodes up to the bound, closed walks repeated to depth 65/257, needed schema checked in every machine state."),
 "C12": (EX, "bounded exhaustive exploration of hostile inputs on the real decoder under a limiting allocator",
         "Every byte string over hostile alphabets per schema to a budget, hostile lengths spliced at every offset, library types, long inputs. Stack overflow on deep nesting and unending zero-width repetition are listed findings."),
 "C15": (MC, "bounded exhaustive exploration of schemas and of byte strings under the meta-schema on the real serializer and deserializer",
         "All schemas (legal and not) to 4-6 nodes, odd names/numbers/widths/depths, and all byte strings over three alphabets, extended while the reference lacks bytes. Oracle: FORMAT.txt's meta-schema through the reference coder."),
 "C20": (MC, "bounded exhaustive exploration of schemas; every printed text parsed back and its arrows followed cell by cell",
         "All schemas (legal and not) to 4-7 nodes plus odd names and widths. Independent parser of the text; columns are bytes or characters, consistently."),
 "C22": (MC, "bounded exploration of schemas with illegal recursion, every value and every call replayed on the real coders",
         "All schemas to 4 nodes with recurse(0), one level beyond the root and far beyond at every place; values, serde and the call protocol."),
 "C16": (MC, "bounded exploration of histories of coders over one allocation, each replayed on real coders built on reused and on fresh allocations under a checking allocator",
         "All histories of lifecycles (finished, abandoned at any point, broken, of both directions, three ways of handing the allocation on) up to length 3 quick / 5 thorough; old memory is filled with noise; every block's layout and single release checked."),
 "C17": (MC, "explicit-state exploration with log-fault enumeration; every call replayed on real coders with and without a debug log",
         "In every reached state every call with each way the log can fail or take partial writes, with a failing stderr."),
 "C18": (MC, "bounded exploration of schema x value x every form a program's types can give it, replayed through serde on the real coders",
         "Every form to a cap per value, every part also read as self-describing and ignored; loose reads meet every neighbour of the bytes. Mapping rules written from the crate's documentation."),
 "C19": (MC, "bounded exploration of schema x every value and serde term one step away from conforming, replayed on the real encoder",
         "All neighbours (kind, width, length, order, name, ordinal, hint, skip) of every value of the universe, plus everything against everything on a small universe. Oracle: reference conformance."),
 "C13": (MC, "bounded exploration of type compositions x values, each declared schema and serde round trip compared with a structural model of the type",
         "All compositions of the library's constructors to depth two (three of a subset in thorough) over leaf types, with menus of values; arrays and tuples of every size; borrowed forms are written only."),
 "C14": (MC, "exhaustive generation of type definitions in a bounded grammar, compiled with the real derive; schemas from every root and all round trips compared with a structural model",
         "About 900 (quick) / 3000 (thorough) definitions: every form x every container, self, mutual and ring recursion, newtype chains, hand-marked levels, names and sizes. A generated program that does not compile is a violation."),
 "C21": (MC, "exhaustive generation of terms in a bounded grammar of the macro, compiled and compared with the term's meaning",
         "All terms to four nodes (five in thorough), spelled in all ways of commas, numbers and embedded expressions; wide, deep and oddly named terms; evaluation order of embedded expressions."),
 "C23": (MC, "exhaustive enumeration of the ways to code the parts of a value (calls, dynamic value, serde in its forms), each replayed on the real coders",
         "All assignments per value up to a cap (3000 quick / 60000 thorough), beyond it every single part coded another way than all others; intruding values before every part."),
 "C24": (MC, "exhaustive enumeration of layer sequences and of type graphs on the real recursion stack, compared with a list model and with the unfolded types (bisimulation)",
         "All sequences of 19 kinds of layers to depth 5/6 and of 6 kinds to depth 8/10; all graphs of up to three types with up to two fields each. Types' definitions are looked up at run time by const-generic types that follow the derive's protocol."),
 "C25": (MC, "stateless exploration: every script of faults and misbehaviour of a serde type, at every point it is called or calls, on the real coders",
         "All scripts of up to two deviations (three for small schemas) to a cap per type and value, single deviations complete; also types that do not fit and spoilt bytes (one deviation). Oracle: a message is finished only if it is one, own errors arrive unchanged, the rest of the message can be completed by calls."),
 "C26": (MC, "explicit enumeration of histories of readings, good and failing in every way, through one buffer, each replayed on the real decoder next to a twin that reads into memory of its own",
         "18000 single readings (22 lengths, cuts and ill-formed places everywhere, 11 ways to end, 5 paces) into about ten states of the buffer; all histories of two (35 kinds) and of three quick / four thorough (19 kinds) through one buffer, on coders of their own and on one coder. Checking allocator bounds each request."),
 "C04": (MC, "exhaustive enumeration of scalar domains and 7-bit-group alphabets through the real coders",
         "8/16-bit domains, chars and (thorough) 32-bit domains complete; wider ones over complete group alphabets and all boundary neighbourhoods."),
}
def main():
    checks = []
    for p, (level, tech, note) in sorted(CHECKS.items()):
        checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                       "technique": tech, "level": level, "level_note": note})
    props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    na = [{"property": p, "reason": "check not built yet"} for p in props if p not in CHECKS]
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: everything is observed through the public API. Replay a reported case with target/release/mc replay <file>."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
main()
