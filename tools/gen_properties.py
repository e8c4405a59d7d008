#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None,
                     **({"state": [dict(name=n, meaning=m, where=w) for n, m, w in state]} if state else {}))))

X = "at-x64/src/"
p("E01", "Register and immediate instructions encode exactly what they say",
  "Every mov between registers, mov of an immediate, push, pop, ret and syscall built with the encoder library yields at most 15 bytes that a 64-bit x86 CPU decodes as exactly one instruction, with no byte left over. That instruction has the requested operation, operand width, registers and immediate (a narrower push immediate is sign-extended by the CPU).",
  ["inputs"], "all registers of each width in every operand position, and immediates of 8, 16, 32 and 64 bits",
  "The unit tests sample 2 or 3 register pairs per form and one immediate; a wrong REX bit, register code or immediate byte for any other operand is not seen.",
  [X+"instruction/mov.rs", X+"instruction/push.rs", X+"instruction/pop.rs", X+"instruction/ret.rs", X+"instruction/syscall.rs", X+"encoder/mod.rs", X+"encoder/bytecode.rs", X+"reg.rs", X+"bytes.rs"],
  [("prefix, REX, opcode, ModRM and immediate are assembled in architectural order", X+"encoder/bytecode.rs to_bytes"), ("REX bits derived from the operands", X+"encoder/mod.rs encode")],
  ["bytes returned by Instruction::bytecode"])
p("E02", "Memory operands address exactly the location they describe",
  "For every lea and every mov of a register to memory, the emitted bytes decode as one whole instruction whose effective address is base + index * 2^scale + displacement for the requested base, index, scale and displacement (or next instruction + displacement for the instruction-relative form), and whose register operand is the requested one. The displacement is the 32-bit two's complement value given; using the stack pointer as index means no index.",
  ["inputs"], "all base, index and data registers, all scales, absent base, and displacements over the whole 32-bit range",
  "Seven lea and four mov examples are tested, with displacements 0 and 42 only; the special encodings (rbp, r13, rsp, r12, no base, no index, the switch from one- to four-byte displacement) interact per operand combination.",
  [X+"encoder/mod.rs", X+"mem.rs", X+"instruction/lea.rs", X+"instruction/mov.rs", X+"encoder/bytecode.rs"],
  [("addressing mode, SIB and displacement width chosen from the operand", X+"encoder/mod.rs impl RegMemLike for Mem64")],
  ["bytes returned by Instruction::bytecode"])
p("E03", "The reported immediate offset is where the immediate is",
  "For every move of a 32- or 64-bit immediate to a register, the offset the library reports for the immediate is exactly the position of its bytes in the encoding: overwriting the 4 or 8 bytes there with another value gives precisely the encoding of the same move with that other value, and those are the last bytes of the instruction.",
  ["inputs"], "all 32- and 64-bit destination registers and all pairs of old and new immediates",
  "Two registers per width are tested and only by length; an offset wrong for a particular register would corrupt code at link time.",
  [X+"instruction/mov.rs"], [("offset computed from the REX prefix's presence", X+"instruction/mov.rs offset_to_imm_bytes")],
  ["offset_to_imm_bytes against bytecode"])
p("E04", "Register names and widths denote the right hardware register",
  "Every register prints the name the x86-64 architecture gives it; the 64-, 32- and 16-bit names of a register convert to each other's hardware register and report its architectural number and whether it is one of the registers added in x86-64. A printed 64-, 32- or 16-bit name written as an operand in source text denotes that same register.",
  ["inputs"], "all 64 register names of all four widths, in every operand position that accepts them",
  "No test prints a register or converts one; the parser tests use six names.",
  [X+"reg.rs", "at-asm/src/parsers/reg.rs"], [("name tables", X+"reg.rs Display"), ("number tables", X+"reg.rs register_code, is_extended, to_reg64, to_reg32"), ("parser tables", "at-asm/src/parsers/reg.rs")],
  ["Display output, register_code, is_extended, to_reg32/to_reg64, assembled code"])
p("E05", "The bounded byte buffer holds exactly what was put in it",
  "A bounded byte buffer made from an array or an integer exposes exactly those bytes (integers little-endian), reports their count, and accepts in-place writes without changing its length; two buffers are equal exactly when they expose the same bytes. Asking for more bytes than the capacity is refused, never truncated.",
  ["inputs", "histories"], "every capacity and length up to 15, integer values of every width, and write sequences",
  "The buffer has no test of its own; only instructions of a few lengths pass through it.",
  [X+"bytes.rs"], [("length checked against capacity on construction", X+"bytes.rs with_len, From")],
  ["as_ref, as_mut, len, is_empty, =="])

M = "at-mac/src/"
p("M01", "Every Mach-O structure is written in Apple's layout and reads back",
  "Each structure the Mach-O library can write (file header, the four load commands and their section and tool entries, symbol and relocation entries) is written as the bytes Apple's format prescribes for its field values on this host, of exactly the declared size. Reading those bytes gives the same value back, flag collections compared as sets. A name that does not fit its field is refused.",
  ["inputs"], "all field values: every field at its extremes, at each single bit and in pairs with every other field, all enumerators, names of 0 to 16 characters; file headers whose magic declares the host's byte order",
  "One example value per structure is tested, mostly small and zero fields, and only write against read: two symmetric mistakes cancel out.",
  [M+"header.rs", M+"load_command/segment64.rs", M+"load_command/symtab.rs", M+"load_command/dysymtab.rs", M+"load_command/build_version.rs", M+"nlist.rs", M+"reloc.rs", M+"io.rs"],
  [("field by field write_into and read_from_in", "each structure"), ("fixed-size strings", M+"io.rs")], ["bytes written, value read"])
p("M02", "Foreign byte order reads as the same values",
  "A file header announces the byte order of its file, and reading any structure in that announced order gives the same values as its byte-swapped twin read in the other order. This holds for multi-byte fields, the packed relocation fields, and load commands picked out by their type.",
  ["inputs", "configurations"], "both byte orders and every field lane of every structure",
  "No test reads the non-native order at all.",
  [M+"header.rs", M+"io.rs", M+"reloc.rs", M+"load_command/mod.rs"], [("endian passed to each read", M+"io.rs ReadExt"), ("two bit-field layouts", M+"reloc.rs read_from_in")], ["value read"])
p("M03", "Packed words decode losslessly or are refused",
  "Decoding a packed or enumerated word (header flags, section type and attributes, symbol type byte, relocation word, file type, magic, CPU type, platform, tool, version) either gives a value that encodes back to exactly the same word, or is refused. Every word made of values the library declares is accepted, whatever the combination; field values that do not fit their bits are refused, never cut or spilled.",
  ["inputs"], "all 256 symbol type bytes, all subsets of the declared flags, each undeclared bit, all relocation words, the enumerator ranges and their surroundings",
  "Tests encode and decode one value per word; a bit lost or misassigned in any other combination is not seen.",
  [M+"header.rs", M+"nlist.rs", M+"reloc.rs", M+"load_command/segment64.rs", M+"load_command/build_version.rs"],
  [("masks and shifts", M+"nlist.rs, reloc.rs"), ("bit loops over declared flags", M+"header.rs, segment64.rs")], ["from_* and to_* conversions, read and write of the enclosing structure"])
p("M04", "The string table returns every string at its offset",
  "After any sequence of pushes the string table's bytes are a NUL followed by each pushed string and its NUL; looking up any offset returns the text from there to the next NUL, so each pushed string is found at the offset it was pushed at and offset 0 is empty. Iteration yields the pushed strings in order, a table rebuilt from its bytes behaves the same, and text with NUL or non-ASCII characters or bytes without the enclosing NULs are refused.",
  ["histories", "inputs"], "all push sequences, including empty strings and strings that are prefixes or suffixes of each other",
  "Tests push one string; offsets after several pushes, empty and overlapping strings are not sampled.",
  [M+"string_table.rs"], [("NUL-separated byte vector", M+"string_table.rs")], ["as_ref, len, get, iter"], [("data", "concatenated NUL-terminated strings", M+"string_table.rs")])
p("M05", "Load commands can be streamed back to back in either byte order",
  "Any sequence of load commands written one after another is read back as the same sequence, each read consuming exactly the bytes of its command including its trailing section or tool entries, whatever follows. The command's reported type and size agree with what was written.",
  ["histories", "configurations"], "all sequences of the four load commands with 0 to several trailing entries, in both byte orders",
  "The dispatching reader and writer have no test.",
  [M+"load_command/mod.rs", M+"load_command/segment64.rs", M+"load_command/build_version.rs"], [("peek of the command type, then the rest", M+"load_command/mod.rs read_from_in")], ["LoadCommand::read_from_in, write_into, cmd, cmd_size"])
p("M06", "Truncated or inconsistent Mach-O input is refused, never misread",
  "Reading a structure or load command from an input that ends before the structure does, that carries the wrong or an unknown command type, a size that disagrees with the command's contents, or an unknown magic number, fails. It never yields a value.",
  ["inputs", "fault_sequences"], "every strict prefix of every structure, every other command type and every wrong size",
  "No test reads malformed input.",
  [M+"io.rs", M+"load_command/mod.rs", M+"load_command/segment64.rs", M+"load_command/symtab.rs", M+"load_command/dysymtab.rs", M+"load_command/build_version.rs", M+"header.rs"],
  [("size and type assertions", "read_from_in of each command"), ("exact-length reads", M+"io.rs")], ["whether a value is returned"])

O = "at-obj/src/"
p("O01", "Every emitted object file is structurally well-formed Mach-O",
  "For any object, the emitted file's header, segment, section and symbol-table descriptions agree with each other and with the file: counts and command sizes add up, every described range lies inside the file, no two ranges overlap, the relocation and symbol tables are 8-byte aligned, and nothing follows the string table. The header announces an x86-64 object without flags; its one segment is unnamed and may be read, written and executed. The segment covers exactly its sections in memory and in the file, and never claims more file bytes than memory.",
  ["inputs", "configurations"], "all combinations of section sizes, relocation counts and symbol counts, small ones exhaustively and large ones around powers of two",
  "at-obj has no test; nothing in the test suite emits an object file.",
  [O+"macho.rs", O+"object.rs", O+"num.rs"], [("one layout computed in three places that must agree", O+"macho.rs gen_segment_command64, gen_section64s, gen_symtab_command"), ("padding", O+"num.rs")], ["bytes written by the object writer"])
p("O02", "Sections carry their bytes, addresses and kind",
  "Each section that has bytes or symbols appears once, in the order code, data, zero-fill, with its standard section and segment name; its file range holds exactly its bytes, its memory size is its size, and the memory ranges follow one another from address 0. Zero-fill sections take no file space, code is marked as instructions, and sections with relocations are marked as having them.",
  ["inputs", "configurations"], "all combinations of present and absent sections and of section sizes",
  "at-obj has no test.",
  [O+"macho.rs", O+"object.rs"], [("running address, offset and relocation cursors", O+"macho.rs gen_section64s")], ["section headers and file contents"])
p("O03", "Every symbol is emitted once with its name, place and binding",
  "The symbol table of an emitted object has exactly one entry per symbol of the object, section by section in order, and each entry resolves to the symbol's own name. A section symbol carries its section's ordinal and address plus its offset, an absolute symbol its value and no section, an undefined one no section and no value; it is external exactly when the symbol is. A name the string table cannot hold is refused. The object's own symbol lists are complete and in the same order, and changes through the mutable one arrive in the object.",
  ["inputs", "configurations"], "all symbol lists over the three kinds, both bindings, every section including empty ones, names that overlap as prefixes or suffixes or repeat, and large counts",
  "at-obj has no test.",
  [O+"macho.rs", O+"object.rs", M+"string_table.rs", M+"nlist.rs"], [("name offsets recomputed by scanning the string table", O+"macho.rs get_strx"), ("ordinals counted over present sections", O+"macho.rs gen_nlist64s")], ["symbol and string tables"])
p("O04", "Every relocation is emitted for its section, place and symbol",
  "Each section's relocation table lists exactly that section's relocations in order, each with its offset in the section, its width and pc-relative flag, as an external absolute relocation whose symbol index denotes the symbol named by the relocation. A relocation of an unknown symbol or impossible width is refused.",
  ["inputs", "configurations"], "all relocation lists over code and data sections, widths, flags and target symbols in any section, and large counts",
  "at-obj has no test.",
  [O+"macho.rs", M+"reloc.rs"], [("symbol looked up by name in the emitted table", O+"macho.rs get_sym_idx"), ("per-section relocation offset", O+"macho.rs gen_section64s")], ["relocation tables"])
p("O05", "The Mach-O library reads back every emitted object",
  "The library's own reader, applied to any emitted object, finds the header, exactly the load commands it announces, the sections, relocations, symbols and names that are in the file according to Apple's format, with the same values.",
  ["inputs", "configurations"], "all objects over section shapes, symbols, relocations, names, values and counts within the bounds",
  "Reader and writer are tested apart, on one structure each.",
  [O+"macho.rs", M+"header.rs", M+"load_command/mod.rs", M+"load_command/segment64.rs", M+"nlist.rs", M+"reloc.rs", M+"string_table.rs"], [("writer of at-obj and reader of at-mac agree on layout", O+"macho.rs write_into")], ["values returned by the readers"])

A = "at-asm/src/"
p("A01", "An assembled program means what its lines say",
  "For every program of section switches, labels, exports, data and instructions, the emitted object holds, per section, the concatenation of the bytes of that section's lines in source order, every label at the offset where it stands in its own section, and one relocation per symbolic operand. Code is the initial section, and switching away and back continues where the section was left.",
  ["programs", "histories"], "all line sequences up to a depth over an alphabet covering every kind of line, and long programs",
  "No unit test assembles more than one line; section state, offsets and label placement over a sequence are untested.",
  [A+"assembler.rs", A+"parsers/line.rs", A+"reader.rs", O+"macho.rs"], [("current section and its growing size", A+"assembler.rs read_from")], ["object written for a source text"],
  [("cur_sect, obj", "current section and accumulated contents", A+"assembler.rs")])
p("A02", "Each instruction line assembles to the instruction it names",
  "For every accepted mov, push, ret and syscall line with register or numeric operands, the code emitted for that line performs exactly that instruction on a 64-bit x86 CPU: the named registers at the named width, and the written value (a pushed number agrees in its low 32 bits with what is pushed, and values up to 2^31-1 are pushed as themselves).",
  ["inputs", "programs"], "all operand pairs of each width, and numbers over the whole range of each width",
  "Six mov lines are tested against the encoder they call; no push, ret or syscall line is.",
  [A+"parsers/instruction/mov.rs", A+"parsers/instruction/push.rs", A+"parsers/instruction/mod.rs", A+"parsers/reg.rs"], [("operand kinds tried in turn", A+"parsers/instruction/mov.rs parse_str")], ["code section of the object"])
p("A03", "Numbers and expressions have their exact value or are refused",
  "A decimal or 0x-hexadecimal number, and the sum or difference of two of them, wherever accepted, stands for its exact value in 64-bit two's complement arithmetic. A value that does not fit the operand or data width, a malformed number and an expression beyond one operator are refused, never truncated or partly ignored.",
  ["inputs"], "boundary values of every width, both radixes, both operators and all operand pairs, in every context that takes a number",
  "Three expressions and a handful of literals are tested, none at a boundary and none that must be refused.",
  [A+"parsers/num.rs", A+"parsers/expr.rs", A+"parsers/data.rs", A+"parsers/instruction/mov.rs", A+"parsers/instruction/push.rs"], [("radix parsing", A+"parsers/num.rs"), ("wrapping arithmetic", A+"parsers/expr.rs"), ("width checks", A+"parsers/expr.rs as_u32, as_u16; data.rs write_num")], ["assembled bytes or refusal"])
p("A04", "Data directives emit their items in order, width and padding",
  "A db, dw, dd or dq line, with or without a label, emits its items in order: each number little-endian in the directive's width, each quoted string as its exact bytes padded with zeros to a multiple of that width. Any characters other than a quote or line end may occur in a string, and a label names the first byte.",
  ["inputs", "programs"], "all item lists up to a length over numbers and strings, all string lengths modulo the width, every printable character",
  "The data tests use a few lists; characters with syntactic meaning inside strings, padding at each length and mixed lists are not covered.",
  [A+"parsers/data.rs", A+"parsers/line.rs", A+"assembler.rs"], [("item iterator and padding", A+"parsers/data.rs"), ("comment stripping aware of strings", A+"parsers/line.rs")], ["sections of the object"])
p("A05", "Layout, comments and line endings never change the output",
  "Two sources that differ only in indentation, in the kind and amount of blanks between tokens and around commas, in trailing blanks, comments, blank or comment-only lines, in LF or CRLF endings, or in whether the last line is terminated assemble to the identical object file.",
  ["programs", "inputs"], "every kind of line, each layout choice at each place, alone and in pairs",
  "Tests use one layout per construct.",
  [A+"parsers/line.rs", A+"parsers/data.rs", A+"parsers/expr.rs", A+"parsers/instruction/mov.rs", A+"reader.rs"], [("tokenising by whitespace", "parsers"), ("comment stripping", A+"parsers/line.rs")], ["object bytes"])
p("A06", "Malformed source is refused, at the line that is wrong",
  "A source with a line that is not valid in the assembly language (unknown instruction or section, missing, surplus or mismatched operands, number out of range, unterminated string) is refused: the run ends unsuccessfully with a diagnostic that gives that line's number, whatever surrounds the line. A program that emits bytes into the zero-fill section or refers to a label that is not defined is refused as well.",
  ["programs", "inputs"], "every class of malformed line, at every position, in every section, after blank and comment lines, in long files",
  "Only three malformed section lines are tested, and never through the assembler.",
  [A+"assembler.rs", A+"parsers/line.rs", A+"parsers/instruction/push.rs", A+"parsers/instruction/mov.rs", A+"parsers/data.rs", A+"parsers/section.rs", A+"parsers/global_symbol.rs"], [("line counter and exit on parse error", A+"assembler.rs read_from")], ["exit status, diagnostics, absence of output"])
p("A07", "Symbolic operands resolve to the label's address after linking",
  "When an assembled object is linked at any base address by applying its relocations, every mov of a label into a register loads exactly the address at which that label's bytes were placed, and no other byte of any section changes. This holds for each 64- and 32-bit register, for labels before or after the use, in any section, with similar names.",
  ["programs", "configurations"], "all destination registers, label sections, definition orders and several symbolic operands per program",
  "No test assembles a symbolic operand; the repository's own end-to-end script needs macOS.",
  [A+"parsers/instruction/mov.rs", A+"assembler.rs", O+"macho.rs", X+"instruction/mov.rs"], [("relocation at instruction start plus immediate offset", A+"assembler.rs"), ("symbol index by name", O+"macho.rs")], ["object bytes after simulated linking"])
p("A08", "Exactly the exported labels are external",
  "A label is external in the emitted object exactly when some export line names it, wherever that line stands relative to the label and to section switches and however often it is repeated; exports never change any label's place and exporting an undefined name adds nothing.",
  ["programs", "histories"], "all interleavings of export lines, label and data definitions and section switches up to a depth, with names that are prefixes of each other",
  "No test exports a label.",
  [A+"assembler.rs", A+"parsers/global_symbol.rs", O+"object.rs"], [("names collected, applied to all sections' symbols at the end", A+"assembler.rs read_from")], ["external bit of each symbol"])
p("A09", "Feeding a source in pieces and emitting repeatedly change nothing",
  "Feeding a source to one assembler in several pieces cut at line ends gives the same object as feeding it at once, and diagnostics keep counting lines across pieces. Emitting does not change the assembler: it can be repeated, or done between pieces, with the output always that of the text fed so far, and assemblers do not influence each other, also when they are at work at the same time in several threads.",
  ["histories", "schedules"], "all ways to cut small programs into pieces, all placements of emissions, interleavings of two assemblers, and schedules of two threads with an assembler each",
  "No test calls the assembler's public interface at all.",
  [A+"assembler.rs", O+"macho.rs"], [("state kept in the assembler between calls", A+"assembler.rs")], ["object bytes"])
p("A10", "The command line writes the right file, or touches nothing",
  "A successful run leaves at the output path (given with -o anywhere on the command line, else the input path with extension o) exactly the object of the input, replacing whatever was there, changes no other file, and exits with status 0. A run that fails, for whatever reason in its arguments or source, exits with a non-zero status and leaves every file as it was; so does a run that is killed while it reads its source. All this holds also while other runs are under way in the same place.",
  ["configurations", "histories", "inputs", "schedules"], "all argument orders, previous states of the output file, kinds of failure, sequences of runs on the same output, and orders in which runs under way at the same time take their steps",
  "The binary has no test.",
  [A+"main.rs", A+"assembler.rs"], [("argument parsing", A+"main.rs Config::init"), ("output opened only after assembling succeeded", A+"main.rs main")], ["exit status and directory contents"])
p("A11", "I/O in pieces is transparent and I/O errors are never swallowed",
  "However the operating system splits or interrupts reads of the source and writes of the output, the bytes produced are those of unsplit I/O, also across internal buffer boundaries. If a read or a write fails at any point, or the output accepts no more bytes, the operation fails visibly and never completes as if it had succeeded.",
  ["fault_sequences", "inputs"], "all split points, pairs of split points, chunk sizes and interruption points, and an error at every byte position, for the assembler, the object writer and every Mach-O structure",
  "Tests use in-memory buffers that never split, interrupt or fail.",
  [A+"reader.rs", A+"assembler.rs", O+"macho.rs", M+"io.rs"], [("exact reads and complete writes with unwrap", M+"io.rs"), ("buffered line reader", A+"reader.rs")], ["output bytes or failure"])
p("A12", "Every source ends in an object or a refusal, the same every time",
  "Whatever bytes the source consists of, assembling it ends: either in a well-formed object file or in a refusal with a diagnostic and without output. It never hangs, crashes by a signal, or ends successfully without an object, and the same source always ends the same way, byte for byte.",
  ["inputs"], "all short byte strings, all single edits, removals and doublings of a program, and extreme lengths and repetitions",
  "Tests feed valid single lines.",
  [A+"assembler.rs", A+"reader.rs", A+"parsers/line.rs", A+"parsers/data.rs", A+"parsers/expr.rs", O+"macho.rs", M+"string_table.rs"], [("parsers on arbitrary text", A+"parsers/line.rs")], ["object bytes, exit status, diagnostics"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
