"""What each property's check runs. stages: executables with numbers of cases
(quick, thorough)."""

PROPS = {}


def stage(exe, cases, name="main", flavour="asan", sources=None, **kw):
    d = {"name": name, "exe": exe, "flavour": flavour, "sources": sources or [exe + ".cpp"], "cases": cases}
    d.update(kw)
    return d


def prop(pid, stages, technique, rule):
    PROPS[pid] = {"stages": stages, "technique": technique, "evidence": {"rule": rule}}


prop("C01", [stage("p_C01", (20000, 400000))],
     "online comparison of the real decoder with a reference FAST 1.1 interpreter on generated streams, under ASan and UBSan",
     "distinct (template set, message bytes) pairs whose decoding was compared with the reference values")
prop("C02", [stage("p_C02", (20000, 400000))],
     "the real encoder's output interpreted online by a reference FAST 1.1 interpreter and compared with the message put in, under ASan and UBSan",
     "distinct (template set, encoded message) pairs whose meaning was compared with the encoded message")
prop("C03", [stage("gen_C03", (40000, 1500000), sources=["p_C03.cpp"], prepare="codegen", sets=(12, 40))],
     "the real type generator runs on generated template sets, its code is compiled with sanitizers, and histories run through generic and specialised coders side by side: bytes, messages, consumption, refusals and token lifetimes are compared online; ASan and UBSan",
     "distinct (template set, bytes) pairs on which generic and specialised coders were compared")
prop("C04", [stage("p_C04", (16000, 500000)), stage("gen_C04", (12000, 500000), name="generated", sources=["p_C04.cpp"], prepare="codegen", sets=(8, 32))],
     "mutated and hostile streams decoded from exact-size heap buffers under ASan, UBSan, LSan, a recording allocator and a hang watchdog; inputs that the reference interpreter finds valid are compared with it",
     "distinct (template set, input bytes) decodings watched by the sanitizers")
prop("C05", [stage("p_C05", (16000, 500000)), stage("gen_C05", (12000, 500000), name="generated", sources=["p_C05.cpp"], prepare="codegen", sets=(8, 32))],
     "differential run of a coder with an arbitrary failing history, then reset, against a new coder and the reference interpreter; fault injection into the allocator; ASan, UBSan, recording allocator",
     "distinct (history, post-reset message) pairs whose outcome was compared with a new coder")
prop("C06", [stage("p_C06", (6000, 250000)), stage("gen_C06", (4000, 200000), name="generated", sources=["p_C06.cpp"], prepare="codegen", sets=(8, 32))],
     "every buffer size around the encoded size, in exact-size heap blocks watched by ASan; online comparison of fixed and growing buffers and of the existing content; recording allocator, UBSan",
     "distinct (history, buffer size) encodings compared with the growing buffer, plus distinct size sweeps")
prop("C07", [stage("p_C07", (6000, 250000))],
     "presence map trees of known bits written and read by the real classes and compared bit by bit and byte by byte; messages with hundreds of presence map fields compared online with the reference interpreter; ASan and UBSan",
     "distinct presence map trees and messages with very many presence map bits that were compared")
prop("C08", [stage("p_C08", (20000, 500000))],
     "reference FAST 1.1 interpreter with its own dictionary resolution compared online with the real coders on template sets where sharing is frequent; key/type conflicts must be refused; ASan and UBSan",
     "distinct (template set, message bytes) pairs whose values depend on the dictionary resolution, and distinct template sets judged for key conflicts")
prop("C09", [stage("p_C09", (12000, 400000))],
     "random histories of copies, moves, assignments, changes and destructions on several allocators, every object compared after every step with a model of independent values; recording allocators, ASan, LSan and UBSan",
     "distinct (object value, last operation) states compared with the model")
prop("C10", [stage("p_C10", (40000, 1500000))],
     "random operation histories on real fields compared after every operation with a standard container; recording allocator, ASan and UBSan",
     "distinct (field kind, allocator, resulting content and ownership state) observations compared with the container model")
prop("C11", [stage("p_C11", (12000, 400000), sources=["p_C09.cpp"], flags=["-DVF_C11"])],
     "random histories on sequences compared after every operation with a model of arrays of independent elements, including what growing exposes; recording allocators, ASan and UBSan",
     "distinct (object value, last operation) states compared with the array model")
prop("C12", [stage("p_C12", (20000, 600000), asan="allocator_may_return_null=1")],
     "shadow map of live blocks with fill patterns over random allocator histories, allocation hooks for the underlying memory, ASan and UBSan",
     "distinct (allocator history, block) pairs checked for disjointness, alignment and preserved content, plus distinct reset cycles checked for reuse")
prop("C13", [stage("p_C13", (10000, 400000))],
     "operator==, typed comparisons and string orderings on pairs of real messages compared online with equality of the values put in: pairs reached by different histories, pairs differing in exactly one place, every nested part; ASan and UBSan",
     "distinct (field, pair of values) comparisons judged by the value model")
prop("C14", [stage("p_C14", (40000, 1000000))],
     "every message is written by the real JSON writer, the text read by an independent strict JSON parser and compared member by member with the values put in, then read back by the real reader into new and used messages and compared with the model; ASan and UBSan",
     "distinct JSON documents whose re-read message was compared with the model")
prop("C15", [stage("p_C15", (10000, 600000))],
     "the real JSON reader under ASan, UBSan and a time limit on respelt, truncated and mutated documents; each outcome compared online with an independent strict parser and a model of what the text means for the template; the message left behind is read, copied, compared and overwritten",
     "distinct texts whose outcome was judged")
prop("C16", [stage("p_C16", (20000, 600000))],
     "values and literals are converted by the real code in every direction (text, big decimals, floating point, integers, initial values in template documents) and each result compared online with exact decimal arithmetic; ASan and UBSan",
     "distinct (conversion, input) pairs compared with exact arithmetic")
prop("C17", [stage("p_C17", (6000, 200000))],
     "a generator writes random template sets in random spellings of the documented grammar (inner types, shared definitions, attribute order, comments, foreign attributes, several documents), the real loader reads them, and every instruction it built is compared with the model; documents that break one rule each must be rejected; ASan and UBSan",
     "distinct (template, spelling) pairs compared with the model, and illegal documents rejected")
prop("C18", [stage("p_C18", (60000, 3000000))],
     "valid documents are mangled at the level of elements, attributes, values and bytes, hostile ones are made up from the vocabulary, and loaded by the real loader under ASan (fenced arena, leak detection) and UBSan; what loads is read completely and used to make, copy, view, encode and decode messages, and the descriptions loaded before through the same registry are compared with what they were",
     "distinct hostile documents loaded or rejected")
prop("C25", [stage("p_C25", (6000, 200000))],
     "random templates of the layouts the exporter accepts (columns, groups in the table, groups in tables of their own, sequences, sequences of a template, keys, orderings, skipped fields) and histories of messages with hostile values, keys used twice and connections closed and opened again; the rows are read back with SQL and compared with a model of the rows; ASan and UBSan; files left open are counted",
     "distinct rows compared with the model")
prop("C20", [stage("p_C20", (24000, 600000))],
     "random views (alternatives, shared prefixes, elements of sequences up to the largest index) over random templates are loaded and iterated over random messages by the real code under ASan and UBSan with the blocks of the loader's arena fenced; each position is compared online with the path followed through the model of the message",
     "distinct (view, field, message) triples compared with the model")
prop("C19", [stage("p_C19", (25000, 500000))],
     "reference interpreter that tracks the template in effect, compared online with the real coders over many documents, unknown and duplicate identifiers, partial includes; ASan and UBSan",
     "distinct (template sets, message) pairs whose template dispatch was compared with the reference")
prop("C22", [stage("gen_C22", (30000, 1000000), sources=["p_C22.cpp"], prepare="codegen", sets=(16, 48))],
     "the real type generator runs on generated template sets, its code is compiled with sanitizers; the built-in descriptions are compared with the ones loaded from the same documents, and every typed accessor with generic access to the same message; recording allocator, ASan and UBSan",
     "distinct (template set, message) pairs read through every typed accessor, and distinct templates whose descriptions were compared")
prop("C23", [stage("p_C23", (8000, 300000))],
     "after every change, made through a random route (index, name, id, iterators, visitors, untyped assignment), the whole message is read back through every route and compared with a value model; ASan and UBSan",
     "distinct (field, value) pairs read through every route and compared with the model")
prop("C24", [stage("p_C24", (80000, 3000000)), stage("p_C24", (60000, 2000000), name="xetra", flavour="xetra")],
     "names and values of generated element lists compared online with the loaded descriptions, with fields after every kind of assignment, copy, coding and text, the stream compared with that of the integers the values stand for, invalid lists and initial values must be refused; both specification variants of the build; ASan and UBSan with fenced arena blocks",
     "distinct messages whose enumerations, sets and booleans were compared in every representation, and distinct refused documents")
prop("C21", [stage("p_C21", (5000, 150000), flavour="tsan", limit=60), stage("gen_C21", (2500, 100000), name="generated", sources=["p_C21.cpp"], prepare="codegen", sets=(8, 32), flavour="tsan", limit=60)],
     "two to six threads with their own coders and messages, random delays, shared descriptions, concurrent loading and destruction, watched by ThreadSanitizer; every result compared with that of the same work done alone",
     "distinct concurrent histories in which threads were inside operations at the same time and whose results were compared with the sequential run")
NOT_APPLICABLE = {}
