#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{here}/properties.jsonl')]
DEC = "exhaustive within the stated bounds; trusts the independent decoder (mc/src/x86.rs) as statement of the Intel SDM"
MAC = "exhaustive within the stated bounds; trusts the independent Mach-O description in mc/src/macho.rs and mc/src/props/mac.rs (Apple's loader.h, nlist.h, reloc.h)"
ASM = "exhaustive within the stated bounds; trusts the reference assembler (mc/src/asmref.rs), the independent decoder and Mach-O reader; every model step is compared with the real assembler"
T = {
 'E': ("explicit enumeration of all operand tuples of the real encoder, checked against an independent decoder", DEC),
 'M': ("explicit enumeration of field lanes, operation sequences and corruptions on the real code, checked against an independent Mach-O model", MAC),
 'O': ("bounded exhaustive enumeration of objects through the real emitter, checked against an independent strict Mach-O reader", MAC),
 'A': ("bounded exhaustive exploration of programs line by line on the real assembler against a reference model (explicit-state, conformance checked on every trace)", ASM),
}
SPECIAL = {
 'E05': ("exhaustive exploration of buffer operations on the real type against a byte-vector model", "exhaustive within the stated bounds; the model is a plain byte vector"),
 'A03': ("explicit enumeration of operand strings and value pairs on the real assembler against an exact-arithmetic oracle", ASM),
 'A05': ("deviation-bounded exhaustive exploration (all single and pair layout deviations; triples thorough) on the real assembler", ASM),
 'A06': ("bounded exhaustive enumeration of token sequences and positions of malformed lines, each run in a process of its own, against a recogniser", ASM),
 'A09': ("exhaustive exploration of all cut, emission and interleaving choices of the real assembler against fresh assembly", ASM),
 'A12': ("bounded exhaustive enumeration of byte strings, edits and extremes on the real assembler, each run twice in a process of its own, judged by the independent Mach-O reader", "exhaustive within the stated bounds; non-termination is a limit of 30 s of processor time"),
 'A10': ("exhaustive exploration of argument vectors, file states and run histories of the real binary against a file-system model", "exhaustive within the stated bounds; the real binary runs unprivileged in scratch directories; trusts the host file system"),
 'A11': ("exhaustive fault enumeration: every split, interruption and error point of every I/O operation (deviations 0, 1, 2) on the real code", "every placement within the stated bounds is executed; the I/O device is simulated behind Read/Write, and real for the tool (size limits, full device, pipes)"),
}
checks = []
for p in props:
    i = p['id']
    t, n = SPECIAL.get(i, T[i[0]])
    checks.append({
        'property': i,
        'quick_cmd': f'bash run.sh {i}',
        'thorough_cmd': f'VERIF_TIER=thorough bash run.sh {i}',
        'evidence_file': f'evidence/{i}.json',
        'technique': 'model checking: ' + t,
        'level': 'fault_enumeration' if i == 'A11' else 'model_checking',
        'level_note': n,
    })
m = {
 'version': 1,
 'setup_cmd': 'bash run.sh build',
 'checks': checks,
 'not_applicable': [],
 'notes': 'No hooks: every check drives the public interface of the four crates and the at-asm binary. Known findings and fixes: KNOWN_FINDINGS.txt.',
}
json.dump(m, open(f'{here}/MANIFEST.json', 'w'), indent=1)
open(f'{here}/MANIFEST.json', 'a').write('\n')
