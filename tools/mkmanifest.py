#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the table below and properties.jsonl.
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "path-partitioned abstract interpretation of the SSA form (value numbering, linear inequalities)"
TRUST = " Trusted: go/types and x/tools/go/ssa, the models of the standard library functions in checker/eng, 64-bit int."
T = {
 "C01": (AI + ": exact effect of every runtime primitive", "other", "All inputs and lengths: every path of every primitive, per direction and length residue, is compared with the RFC 4506 effect; nothing is executed." + TRUST),
 "C02": (AI + ": bound obligations on success and refusal paths of primitives and codecs", "other", "Decides both directions for every length: success implies the bound, refusal excludes lengths within it; for the primitives, EncodingSetSize and every bounded array of the shipped packages and of the codecs that the abstractly evaluated generator emits." + TRUST),
 "C03": (AI + ": panic obligations, codecs checked modularly under contracts", "other", "Every instruction that can panic on a decoding path of a primitive, of a codec of the shipped packages or of an emitted codec is discharged by path facts. Stack exhaustion is C26, memory exhaustion C06." + TRUST),
 "C04": (AI + ": typestate of the coding error", "other", "Every primitive and codec (shipped or emitted) from a failed state has no effect; a step that fails leaves an error to the end of every codec path; EncodeBuf and DecodeBuf return that error." + TRUST),
 "C05": (AI + ": effect (may-write) analysis and aliasing of decoded slices", "other", "No path writes to the value being encoded, to bytes already written, or to the input; decoded slices are capacity-limited." + TRUST),
 "C06": (AI + ": allocation-size obligations with amortisation over consumed input", "other", "Every allocation event on decoding paths of primitives, shipped and emitted codecs is bounded by the remaining input; loops and recursive codecs pay per iteration. The amortisation argument itself is in DESIGN.md." + TRUST),
 "C07": (AI + ": final destination contents compared with decoded values", "other", "Each codec, shipped or emitted by the abstractly evaluated generator, is analysed from a destination about which nothing is known." + TRUST),
 "C08": ("translation validation of Go codecs against an RFC transcription, by " + AI, "translation_validation", "Every path of every codec of rfc1057, both directions; constants and types by the type checker; the oracle (oracle/rfc1057.x) is a transcription of the RFC made by hand." + TRUST),
 "C09": ("translation validation of Go codecs against an RFC transcription, by " + AI, "translation_validation", "Every path of every codec of rfc1813, both directions; constants and types by the type checker; the oracle (oracle/rfc1813.x) is a transcription of the RFC made by hand." + TRUST),
 "C26": ("call-graph cycle detection over all codecs", "other", "Static calls, closures, function values and interface calls of Xdr; the recursive list codecs of the tree are known findings." + TRUST),
 "C10": (AI + ": generated registrations and wrappers evaluated on symbolic service objects", "translation_validation", "Every entry of every shipped registration list against the RFC transcription; each wrapper on every path from a good and from a failed coding state. The codecs are replaced by their contract (C03-C09)." + TRUST),
 "C11": (AI + ": ordering of decode, handler and reply events on all server and wrapper paths", "other", "All paths of Run, its goroutines and all shipped wrappers; codecs and handlers by contract." + TRUST),
 "C12": (AI + ": reply-count and reply-content obligations on all server paths", "other", "All paths of Run and its goroutines for 0, 1 and 2 symbolic registrations; codecs and handlers by contract." + TRUST),
 "C13": (AI + ": decision table of dispatch compared with RFC 1057 in every case split", "other", "Registration histories of up to two registrations with arbitrary numbers, and three of one program; beyond that by symmetry only (small scope). Codecs and handlers by contract." + TRUST),
 "C14": (AI + ": bytes written and read compared with the record format, with byte-level arithmetic", "other", "All paths of Run, its goroutines and Call; all message lengths." + TRUST),
 "C15": (AI + ": write-atomicity analysis (one write, or all writes under a mutex that all requests share)", "other", "All paths of Run and its goroutines. A single call of Write is taken to be contiguous." + TRUST),
 "C16": (AI + ": ownership typestate of pooled buffers", "other", "All paths of Run and its goroutines; every value a sync.Pool of the repository can hold." + TRUST),
 "C17": (AI + ": may-write effect and sharing analysis of requests", "other", "All writes on all paths of Run and its goroutines must hit memory allocated by the request or handed over to it." + TRUST),
 "C18": (AI + ": panic obligations and loop-exit conditions of the serving loop", "other", "All paths of Run and its goroutines; handlers by contract." + TRUST),
 "C19": (AI + ": conditions under which Call can return nil", "other", "All paths of Call; codecs by contract." + TRUST),
 "C20": (AI + ": written bytes of one call and freshness of the id across two successive calls", "other", "All paths of Call, alone and twice in a row from an arbitrary counter; ids may repeat only after the counter wraps." + TRUST),
 "C27": (AI + ": allocation sizes before any byte of the record body has been read", "other", "Both sides violate it on this tree: the allocation sites are known findings; other or larger allocations are reported." + TRUST),
 "C21": ("abstract interpretation of the generator itself (symbolic string templates over its SSA form), then " + AI + " of the emitted templates against a reference compiler", "translation_validation", "The generator is analysed on specification families with symbolic names and numbers: nesting, unions, declarations, renamings; what it emits is type-checked and every emitted codec is compared on every path with the RFC form of its definition. Nesting depth is bounded; grammar productions, declaration kinds and contexts are covered exhaustively." + TRUST),
 "C22": ("abstract interpretation of the generator itself (symbolic string templates over its SSA form), then type-checking of the emitted templates", "translation_validation", "Names and numbers are symbolic, with case splits on what the generator looks at. Name collisions of the target language are known findings." + TRUST),
 "C24": ("abstract interpretation of the generator itself (symbolic string templates over its SSA form), compared with a reference reader under systematic edits of tokens and layout", "translation_validation", "Names and numbers are symbolic; every keyword, mark, Go token kind and scanner error, in every gap of a specification that holds every production. The Go scanner is modelled by itself." + TRUST),
 "C25": ("abstract interpretation of the generator itself with the file system as abstract state and nondeterministic failures of file operations", "other", "All paths of main with up to two failing operations, for correct specifications and for every one-token edit that the reference reader rejects; crashes (kill, power loss) are not covered." + TRUST),
 "C28": (AI + ": blocking operations, locks held over handlers and reads, lock order, on all server paths", "other", "All paths of Run and its goroutines. Independence of requests only: that goroutines are scheduled and writes make progress is assumed." + TRUST),
 "C29": (AI + ": give-back and take obligations of pooled buffers", "other", "All paths of Run and its goroutines, every value the pool can offer; what the pool keeps is up to the Go runtime." + TRUST),
 "C30": ("abstract interpretation of the generator itself (symbolic string templates over its SSA form) on the shipped specifications, then " + AI + " of the emitted codecs and services and comparison of the type-checked declarations", "translation_validation", "Both shipped specifications, completely; the options are those of the Makefile." + TRUST),
 "C31": ("interprocedural may-write effect analysis of package-level state (field-based reference tracking over the SSA form, locksets), " + AI + " for reply buffers and primitives", "other", "Every function of the runtime and the shipped packages and everything generated for the families of C21 and C23. Field-based: a write through a field that may refer to package-level memory counts for every object of the type." + TRUST),
 "C32": ("abstract interpretation of the generator itself (symbolic string templates over its SSA form) under varied circumstances (noninterference by self-composition)", "other", "Three (thorough: eight) sets of circumstances per family and option; orders of maps are varied globally, not each loop on its own." + TRUST),
 "C33": ("abstract interpretation of the generator itself (symbolic evaluation of its SSA form, with the parser's own tables) on specifications derived from the grammar, then a comparison of the declarations in the syntax trees of the emitted files with those of an independent reader", "translation_validation", "Lists of up to 300 elements, nesting up to 24 deep, files up to 200 KB; a limit beyond these sizes would not be seen." + TRUST),
 "C23": ("abstract interpretation of the generator itself (symbolic string templates over its SSA form), then the service analysis of C10 and C11 on the emitted templates", "translation_validation", "Families of program definitions with symbolic names and numbers." + TRUST),
}
NA = {}
exec(open(os.path.join(V, "tools", "manifest_extra.py")).read()) if os.path.exists(os.path.join(V, "tools", "manifest_extra.py")) else None
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in T:
        t, lv, note = T[i]
        checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i + " thorough",
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": lv, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built yet")})
m = {"version": 1, "setup_cmd": "cd checker && GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 go build -o /dev/null .",
     "checks": checks, "not_applicable": na,
     "notes": "All checks read /repo's current source; nothing of /repo is executed. No hooks are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
