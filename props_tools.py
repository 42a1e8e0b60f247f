"""Properties of the tools, the object format and the loader."""
SRC = "src/source/mod.rs"
ONE = "The only test that runs checks an alignment helper; nothing assembles, links or loads a program."


def add(prop):
    prop("C16", "The assembler encodes every instruction as the processor decodes it",
         "Every instruction of the instruction set, with every operand list it takes, assembles to exactly its opcode and "
         "operand bytes: register numbers in their nibbles, byte and wide immediates little-endian, label operands as the "
         "label's address. It is never rejected and assembling it never panics.",
         ["inputs", "programs"],
         "every mnemonic, every operand kind, register number, immediate value and label",
         "Every mnemonic times every operand combination and value. " + ONE,
         [SRC, "src/blf4/isa/mod.rs"], [("mnemonic and operand matching, operand writer", SRC)])
    prop("C19", "Announced sizes and label uses match the bytes written",
         "The operand size the assembler announces for an instruction, from which label addresses are computed, equals the "
         "number of bytes it later writes for it. A label operand is recorded as exactly one use of that label, in the "
         "segment being written and at the position where its address is written; no other operand records a use.",
         ["inputs", "programs"],
         "every mnemonic, operand kind, value and label, any position in the segment",
         "One wrong size shifts every later label of a program, so the two must agree for all operand forms. " + ONE,
         [SRC, "src/bin/tc.rs"], [("DataOperand::size and write_data_operand", SRC)])
    prop("C20", "Operand lists an instruction does not take are rejected",
         "A source instruction whose operands do not match one of its operand lists (too few, too many, the wrong register "
         "width, a register for an immediate, a byte immediate for a wide one) is reported as an error and never assembled.",
         ["inputs"],
         "every mnemonic and every operand list of up to six operands of any kinds and values",
         "All wrong operand lists, not the few a test samples. " + ONE,
         [SRC], [("mnemonic and operand matching", SRC)])
    DIS = "src/disassemble.rs"
    prop("C17", "Disassembling is side-effect free and finds the next instruction",
         "For every opcode the disassembler reports the next instruction exactly where the processor would continue "
         "fetching (modulo 2^16), the documented effect on call nesting, and an end of block exactly for null, halt, reth, ret, "
         "jumps and undefined opcodes. It fails exactly when one of the instruction's bytes cannot be fetched, with that fault, "
         "never panics, never writes memory, and leaves the processor's registers as they were, also when it fails.",
         ["inputs", "configurations"],
         "every opcode and operand byte, every register file, any byte of the instruction failing to be fetched "
         "(instructions outside the memory-mapped I/O area)",
         "All 256 opcodes at every address, with a fault at every byte. " + ONE,
         [DIS, "src/bin/tdbg.rs", "src/bin/tobjdump.rs"], [("per-opcode operand decoding", DIS)])
    prop("C18", "The disassembler shows what the processor executes",
         "For every instruction the disassembly line shows its address, exactly its bytes, and the mnemonic and all operands "
         "that the processor decodes from those bytes, in source order and with the documented register names; a wide "
         "immediate is shown as the label at that value exactly when there is one. An undefined opcode is shown as its byte.",
         ["inputs"],
         "every opcode and operand byte, every address, label known or not",
         "Every opcode times every operand byte. " + ONE,
         [DIS, "src/blf4/register_type.rs"], [("per-opcode formatting", DIS), ("register names", "src/blf4/register_type.rs")])
    KERN = "src/blf4/std_kernel.rs"
    prop("C12", "The built-in kernel answers system calls and resumes in user mode",
         "With the built-in kernel, a system call shows the memory map (r1 = 0), reads port 1 into r1l (3), writes r2l to "
         "port 1 (4) or sets the error handler to r2 (15); any other trap except halt continues at the error handler with the "
         "trap's code in r1 if one is set. The guest then resumes in user mode with trap mode off, and no other register, flag "
         "or memory byte changes. Every other trap stops the machine with that trap. The machine asks the kernel "
         "exactly for the traps that occur, and runs until the first one nobody handles.",
         ["inputs", "configurations", "histories"],
         "every trap, register file and kernel state; kernels present or absent",
         "Every trap with every register file, and the mode switch back to user mode, which isolates the guest. " + ONE,
         [KERN, "src/machine.rs"], [("EKernel::handle_trap", KERN), ("Machine::execute_once", "src/machine.rs")])
    prop("C13", "Mapping a page changes exactly its two table entries and keeps frames apart",
         "Mapping a page makes its level 1 and level 2 entries present with at least the permissions asked for, allocating a "
         "zeroed table or frame exactly where one is missing; an existing entry keeps its frame and its other flags. The frame's "
         "address is returned and no other memory changes. Allocated pages are page aligned, lie in RAM, and are disjoint from "
         "all pages handed out before.",
         ["inputs", "configurations", "histories"],
         "every page table content, table address, page and permission set",
         "Depends on the whole content of the page tables; two programs that share a table page, an entry that gains a "
         "permission. " + ONE,
         [KERN], [("MmapBuilder::map", KERN), ("EKernel::allocate_page", KERN)])
    LOAD = "src/blf4/std_kernel/load_user_binary.rs"
    prop("C14", "A loaded program gets exactly its segments, heap and stack",
         "Loading an object maps exactly the pages its segments, its heap (heap_size bytes from the heap segment's offset) and "
         "its stack (the top stack_size bytes) overlap, each for user access with the permissions of their kinds: data and heap "
         "read and write, rodata read, text execute (and read if flagged), zero and unknown all. Every segment byte is at its "
         "address. The processor starts at the entry in user and virtual mode with that page table and the stack at the top.",
         ["inputs"],
         "every segment kind, offset and length (ending below 0x10000), flags, heap size, stack size and entry; segments that do not overlap",
         "Every offset, length and size, including segments that straddle pages and sizes that are not multiples of a page. " + ONE,
         [LOAD, KERN], [("load_user_binary", LOAD), ("MmapBuilder::add_segment", KERN)])
    OBJ, SEC, AALV = "src/aalv/obj.rs", "src/aalv/obj/sec_impl.rs", "src/aalv/mod.rs"
    prop("C21", "Object sections keep their documented byte layout",
         "Each kind of object section (entry, flags, stack size, heap size, segment, symbols, relocations) is written as and "
         "read from its documented little-endian layout under its documented name, so whatever one tool writes another reads "
         "back. A section that ends early, has an unknown segment type or an unknown flag, and every I/O error, is reported as "
         "an error; reading never panics and never reads past the section.",
         ["inputs", "fault_sequences"],
         "every section value and every file content, section length and I/O error (symbol and relocation tables of up to two entries)",
         "Every byte content of a section, with an I/O error at every operation. " + ONE,
         [SEC, OBJ], [("read and write of each section", SEC), ("SegmentType", OBJ)])
    prop("C22", "The object container is read and written as documented",
         "A container is its magic, wherever it starts in the file, then name, length and bytes of each section, then an empty "
         "name; reading finds the first magic and each section's window by name, in file order, and ends right after the final "
         "name. Writing produces that form, with the length of what was written, and refuses sections too long for the length "
         "field. Truncated files and I/O errors are reported as errors; nothing panics.",
         ["inputs", "fault_sequences", "histories"],
         "every file content and size, start position, section content and length (one or two sections), and I/O errors while writing",
         "Every file content, including partial magics, repeated names, windows cut by the end of the file. " + ONE,
         [AALV], [("AalvReader", AALV), ("AalvWriter", AALV)])
    prop("C23", "Writing an object file and reading it back gives the same object",
         "Writing an object writes one section for every part it has, exactly once and with exactly its value, at its file "
         "offset, replacing the file's old content from there; success is reported only if everything was written. Reading "
         "takes every part from its section, leaves absent parts absent or empty, and rejects repeated segments, malformed "
         "sections and unknown reserved sections.",
         ["inputs", "fault_sequences"],
         "every object and combination of sections present, absent or unreadable (up to two segments), failure at every step",
         "Every combination of parts and failures. " + ONE,
         [OBJ, AALV], [("Object::from_aalv_reader", OBJ), ("Object::write_to_file", OBJ), ("write_aalv_file_with_offset", AALV)])
    SYMS = "src/source/symbols.rs"
    prop("C24", "Lines, labels and the entry point get the addresses their lines imply",
         "Assembling a program gives each segment its lines in source order with its size, starts the segments in their fixed "
         "order at the first 128-byte boundary after the previous one, and gives every label and the entry point the address of "
         "the next line of the segment current at that place (lines of included files counting in place, each file with its own "
         "current segment). Every use of a label refers to that label's symbol, before or after its definition.",
         ["inputs"],
         "every program of up to three lines, families of programs of four and five lines, included files, any string lengths",
         "Addresses depend on the whole sequence of lines and on segment switches between them. " + ONE,
         [SRC, SYMS], [("process", SRC), ("Symbols", SYMS)])
    prop("C25", "Exactly the well-formed programs are assembled, with the right symbols",
         "A program is rejected exactly when a line cannot be read, an instruction is not accepted, a segment is unknown or "
         "missing, a label is defined twice, a label used is neither defined nor declared, a declared reference is defined, a "
         "second entry point is given or it does not fit the address space. Otherwise every label mentioned is listed once: "
         "defined ones as global if declared so, else internal, undefined ones as references. Assembling never panics.",
         ["inputs"],
         "every program of up to three lines, families of programs of four and five lines, included files, any string lengths",
         "Errors depend on combinations of lines anywhere in a program. " + ONE,
         [SRC, SYMS], [("process", SRC), ("Symbols", SYMS)])
    TC = "src/bin/tc.rs"
    prop("C26", "The assembler tool writes each program's bytes, symbols and relocations",
         "For every source file that assembles, tc writes an object, named like the source with the object extension, whose "
         "segments start and hold exactly what their lines encode (a label use holding the label's address), whose symbols are "
         "the program's in order, and with exactly one relocation at the place of every label use and the program's entry "
         "point. A file that cannot be read, assembled or written is reported, does not stop the other files, and makes the "
         "exit status a failure; otherwise it is success.",
         ["inputs", "fault_sequences"],
         "one to three source files, each failing or not at any step, programs of up to three lines of every kind and three labels, any values",
         "Relocation places depend on everything before them in the segment, failures on every combination of files. " + ONE,
         [TC, SRC], [("main", TC), ("write_data_operand", SRC)])
    TL = "src/bin/tl.rs"
    prop("C27", "The linker joins objects so that every use refers to its symbol's linked address",
         "Linking lays out each segment, at the next multiple of the alignment, as the objects' parts in order; every symbol keeps "
         "its place in its object's part, equal global names become one symbol with the address of its definition, and at every "
         "relocation stands the address of its symbol, all other bytes unchanged. The entry point is the one asked for or that of "
         "the first object with one, at its linked address. Nothing is written and the exit status is a failure, with a message, "
         "when an object cannot be read, a global name is defined twice, the segments do not fit the address space, or an "
         "executable has an undefined use or no entry point; otherwise the output is written and the status is success.",
         ["inputs", "fault_sequences"],
         "one to three objects (also of an archive) with any segments, symbols and relocations, any options (not raw binary), any failing file operation",
         "Addresses depend on the lengths of all earlier objects' segments, resolution on every combination of definitions and uses. " + ONE,
         [TL], [("tl_main", TL)])
    TT, TAR, SAVN, STRIP, DUMP = "src/bin/t.rs", "src/bin/tar.rs", "src/aalv/savn.rs", "src/bin/tstrip.rs", "src/bin/tobjdump.rs"
    prop("C28", "The emulator tool runs exactly the given program and reports how it ended",
         "The emulator tool loads the object of the given file as it is (or, for a raw binary, puts the file's content in read-only "
         "memory) and then runs the machine once; a file that cannot be read or has no entry point is an error and nothing "
         "runs. The exit status is success exactly when the program halts; when the termination point is asked for, it shows "
         "the last trap and the distance from the nearest named symbol at or before the program counter.",
         ["inputs", "fault_sequences"],
         "any file, readable or not, any object with up to two symbols, any trap and final program counter",
         "Every trap kind, missing entry points and failing reads must be reported, wherever symbols lie. " + ONE,
         [TT], [("t_main", TT)])
    prop("C29", "Archives hold the objects they were made of, in order",
         "The archiver writes the archive magic and then each input's content, in the order given, and fails (exit status and "
         "message) if any step fails. Only a file that starts with the magic is read as an archive; reading it gives each of "
         "its objects once, in order, from where the one before ends, then the end; a failure to read is reported, never "
         "skipped.",
         ["inputs", "fault_sequences"],
         "any number up to three (thorough: five) of objects of any length, any first bytes, any failing operation",
         "Boundaries depend on every object's length, faults on every combination of operations. " + ONE,
         [TAR, SAVN], [("tar_main", TAR), ("IterInner::next", SAVN), ("read_archive", SAVN)])
    prop("C30", "Stripping and dumping objects keep, remove and show exactly what is asked",
         "Stripping empties the names of local symbols and changes nothing else; with -a it removes all symbols and relocations "
         "and nothing else, and refuses an object without entry point unless forced. The object dumper lists every symbol "
         "of every object and archive member it can read once, in order, with its name, location and segment, and "
         "disassembles each when asked. A file that cannot be read (or written) is reported, does not stop the others and makes "
         "the exit status a failure.",
         ["inputs", "fault_sequences"],
         "up to three files (objects, archives of up to two) with up to two symbols each, any options, any failing operation",
         "Losing or adding a symbol, or a status, depends on the combination of files, options and failures. " + ONE,
         [STRIP, DUMP], [("inner_main", STRIP), ("read_objs", DUMP), ("symbols", DUMP)])
    LEX = "src/source/mod.rs"
    prop("C31", "Every source line is read as exactly what it says",
         "Blanks around it aside, a line is a comment (empty, or after ;, # or //), a directive (. and one of the directive words, "
         "then after one space its argument), a label (before a final colon) or an instruction name and, after a space, its "
         "operands between commas. An operand is the register of that name, the decimal, 0x, 0o or 0b number it spells (suffix "
         "b or w: a byte or word, from its least signed to its greatest unsigned value), a quoted character, or else a label. "
         "Strings and characters give their bytes, escapes included. Lines are numbered in order; a line that is none of this "
         "or cannot be read is reported as an error for that line, reading goes on after it, and no line makes the reader panic.",
         ["inputs"],
         "any ASCII line of up to six characters; any characters in the open places of each kind of line, operand and literal",
         "Directive words, register names, literals, escapes and blanks combine in more ways than a test can list. " + ONE,
         [LEX], [("SourceLines::parse_next_line", LEX), ("inner_parse_line", LEX), ("parse_number", LEX), ("parse_bytechar", LEX)])
    prop("C32", "Linking with archives takes exactly the archived objects that are needed",
         "With -l, an object of an archive is linked exactly if one of its global symbols is defined in it and only "
         "referenced by the inputs (or by an object already taken), or is referenced by it and defined by the inputs; taking an "
         "object adds what it references, until nothing more is needed, so that neither the order of archives nor that of "
         "their objects decides which are taken. Each is linked once and as it is. An archive or object in it that cannot "
         "be read fails the link and is never passed over.",
         ["inputs", "fault_sequences"],
         "one or two inputs, archives of up to three objects with up to two symbols each, any names, any failing read",
         "Needs chain through objects in any order; a missed one shows only for particular archives. " + ONE,
         ["src/bin/tl.rs"], [("read_archives", "src/bin/tl.rs"), ("DefinedMap", "src/bin/tl.rs")])
    prop("C33", "The debugger does what each command asks for and nothing else",
         "tdbg loads the program once, begins at its entry point or at the one given (hexadecimal, or a symbol: a global one "
         "before a local one), and shows the next instruction, after the label of its place if a symbol is there. A register "
         "command shows that register's value, flags the flags, `r N` the bytes the program would read at N and N+1 (decimal, 0x, "
         "0o or 0b). n runs on to the next instruction of the same call nesting, si to the very next one, so until the current "
         "routine has returned; `g N` only moves the program counter. q or the end of input ends it successfully; an unreadable "
         "object fails. Other commands change nothing, and none makes it panic.",
         ["inputs", "histories"],
         "any program and machine state; command lines of up to five arbitrary characters and families of longer ones; sessions of up to four commands",
         "A register shown wrongly or a step that stops in the wrong place shows only for particular commands, nestings and values. " + ONE,
         ["src/bin/tdbg.rs"], [("main", "src/bin/tdbg.rs"), ("tdbg_loop", "src/bin/tdbg.rs"), ("parse_num", "src/bin/tdbg.rs")])
