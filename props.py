#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
BL = "src/blf4/mod.rs"
HD = "src/blf4/isa/handlers.rs"
CPU = [BL, HD, "src/blf4/isa/mod.rs"]
MM = "src/mem.rs"

AI = ("abstract interpretation of the compiler's MIR (forward dataflow with joins over a bit-level Boolean "
      "domain, BDD-represented), compared with a written-down specification")
NOTE = ("Covers every value of the unknowns in the partition (no bound on values; loops in this code are bounded). "
        "Trusts rustc's MIR construction, the interpreter's transfer functions and its models of a few std "
        "functions (Box, core::array::from_fn/map; everything else is interpreted from std's own MIR). A construct "
        "the interpreter does not know gives exit 2 (no answer), never a violation.")

P = []


def prop(id, title, statement, over, text, why, files, mech, technique=AI, note=NOTE, state=None, na=None,
         observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, state=state, na=na, observe=observe))


ONE = "1 unit test runs in the whole repository (an alignment helper); nothing executes an instruction."

prop("C01", "User-mode code cannot leave its sandbox",
     "While the processor is in user mode, no instruction changes the page-table pointer, the trap-handler register or "
     "the virtual-addressing mode, and no instruction performs a memory access that bypasses address translation or is "
     "made with kernel privilege. User mode is left only together with a trap: reported to the machine if no trap "
     "handler is installed, or continuing exactly at the installed handler.",
     ["programs", "inputs"],
     "every opcode byte and operand bytes, every register file and flag state with user mode on, every memory content "
     "and fault behaviour",
     "Isolation quantifies over all instructions, operand encodings and machine states. " + ONE,
     CPU, [("privilege checks in the register file and in the privileged instructions", HD)])
prop("C02", "Page-table permissions are enforced on every access",
     "With virtual addressing on, an instruction fetch, data read or data write succeeds exactly when both page-table "
     "levels are present, permit the kind of access at hand (execute, read, write) and, in user mode, permit user "
     "access; otherwise it faults with the code of the first failing check and accesses nothing at the translated "
     "address. With virtual addressing off no access faults.",
     ["inputs", "configurations"],
     "every virtual address, page-table content, page-table pointer, privilege mode and access kind",
     "Holds for every table content and address, 2^16 addresses times arbitrary tables. " + ONE,
     [BL], [("two-level page walk with flag tests", BL)])
prop("C03", "Address translation is exact and side-effect free",
     "A permitted access reaches exactly the physical byte that the two-level translation of its virtual address "
     "prescribes (the address itself with virtual addressing off), and a write changes no other byte of memory than "
     "that one and the flag bytes of the two page-table entries used. A read or fetch changes no memory at all.",
     ["inputs", "configurations"],
     "every virtual address, page-table content and page-table pointer, every byte of memory",
     "Quantifies over all addresses and all unrelated memory bytes. " + ONE,
     [BL], [("two-level page walk and the physical accessors", BL)])
prop("C04", "A permitted write marks both page-table entries dirty",
     "Every permitted write through virtual addressing sets the dirty flag in both page-table entries that translated "
     "it and leaves their other flag bits unchanged. Reads, fetches and faulting writes leave all flag bytes untouched.",
     ["inputs", "histories"],
     "every page-table content, including tables that contain themselves, every address and access kind",
     "Depends on which table bytes alias which addresses, for arbitrary tables. " + ONE,
     [BL], [("dirty-flag update during the page walk", BL)])
prop("C05", "The register file follows the documented aliasing",
     "A byte or word register number reads and writes exactly the register part the instruction set assigns to it: "
     "byte registers are the halves of the word registers, the zero register reads zero and ignores writes, and a write "
     "changes nothing else. In user mode a word access to a privileged register (page table, trap handler) "
     "faults as an illegal operation and changes nothing.",
     ["inputs"],
     "all 16 register numbers of each width, every value, every prior register file and privilege mode",
     "Aliasing must hold for every pair of registers, value and mode. " + ONE,
     [BL, "src/blf4/register_type.rs"], [("register accessors", BL)])
prop("C06", "Jumps, calls, returns and sequencing go exactly where documented",
     "Each conditional jump, call, return, word-immediate load and no-op reads its operands in order and leaves the "
     "program counter, the registers and the flags exactly as the instruction set prescribes for the state it started "
     "in; instruction bytes are fetched from consecutive addresses modulo 2^16. A conditional jump is taken exactly "
     "under its documented flag condition.",
     ["programs", "inputs"],
     "every control-transfer opcode, operand, flag combination and register file",
     "Every flag combination and target, including wrap-around. " + ONE,
     CPU, [("control-transfer handlers", HD)])
prop("C07", "Loads, stores and stack operations move exactly the documented bytes",
     "Each load, store, push, pop, immediate-load and physical-memory instruction accesses exactly the documented "
     "addresses (modulo the address width), in little-endian byte order, in the documented order, with the documented "
     "values, and updates exactly the destination register and the stack pointer. When one of its accesses faults, no "
     "later access of the instruction takes place.",
     ["programs", "inputs", "fault_sequences"],
     "every data-movement opcode, operand bytes, register file, memory content, and any of the accesses faulting",
     "Values, addresses and faults are all universally quantified. " + ONE,
     CPU, [("data-movement handlers", HD)])
prop("C08", "Arithmetic results and flags match the instruction set",
     "Every add, subtract, logic, shift, multiply and divide instruction writes exactly the documented result to the "
     "documented destination registers and sets the zero, sign, overflow and carry flags exactly as documented, for "
     "all operand values, and changes nothing else. Division by zero raises the divide-by-zero trap instead.",
     ["inputs"],
     "every arithmetic opcode, operand register combination (aliasing included) and operand value",
     "2^16 by 2^16 operand values per opcode, and every aliasing of operand registers. " + ONE,
     CPU, [("arithmetic handlers", HD)])
prop("C09", "Undefined encodings trap and change nothing",
     "Every undefined opcode byte, and every encoding of a defined opcode whose reserved operand nibble is not its "
     "required value, raises the invalid-instruction trap. Such an instruction performs no data access and changes no "
     "register or flag other than those of trap entry and the program counter.",
     ["programs", "inputs"],
     "all undefined opcode bytes and all nonzero reserved nibbles in every machine state",
     "All encodings times all states. " + ONE,
     CPU, [("opcode table and operand decoding", HD)])
prop("C10", "Traps are delivered and returned from exactly as documented",
     "On a trap the processor enters kernel mode with the trap flag set; with no handler installed it reports the trap "
     "and its code to the machine, otherwise it saves the interrupted state on the stack in the documented order and "
     "continues at the handler with the code in the code register. Returning from the handler restores exactly the "
     "saved program counter, registers, flags and mode; a fault during delivery is reported to the machine.",
     ["programs", "fault_sequences"],
     "every trapping instruction and trap code, every machine state, any of the delivery's own accesses faulting",
     "Faults can strike at any access of any instruction, in any state. " + ONE,
     CPU, [("trap entry and handler-return", BL)])
prop("C11", "No guest program can crash the emulated processor",
     "Executing an instruction never panics the emulator (no arithmetic overflow, out-of-bounds index, failed "
     "assertion, explicit abort or physical address beyond the memory map), whatever the instruction bytes, registers, "
     "page tables and memory contents.",
     ["programs", "inputs", "fault_sequences"],
     "every opcode byte and operands, machine state, page-table content and memory content (host console I/O excluded)",
     "A panic needs one specific address or operand out of an unbounded state space. " + ONE,
     CPU + [MM, "src/lib.rs"], [("wrapping arithmetic and masked shifts in handlers and translation", HD)])
prop("C15", "Physical memory follows the memory map",
     "For every physical address below 2^24 a read returns the byte last written there; ROM addresses return the ROM "
     "image and ignore writes; the first bytes are the I/O port and each access to one reads or writes the port exactly "
     "once; a fresh memory reads zero. Writing one address never changes what another address reads.",
     ["inputs", "histories"],
     "every address below 2^24, every prior memory content and allocation state, ROM image present or not and of any "
     "length",
     "All pairs of addresses and all prior contents. " + ONE,
     [MM], [("address decoding of the lazily allocated memory", MM)])

import props_tools  # noqa: E402  (the properties of the tools)
props_tools.add(prop)


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"],
                             "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
            if p["observe"]:
                d["anchors"]["observe_at"] = p["observe"]
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "python3 engine/extract.py", "checks": [], "not_applicable": []}
    for p in P:
        if p["na"]:
            m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
        else:
            m["checks"].append({"property": p["id"],
                                "quick_cmd": f"python3 check.py {p['id']} --tier quick",
                                "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                                "evidence_file": f"evidence/{p['id']}.json",
                                "technique": p["technique"], "level": "other", "level_note": p["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


if __name__ == "__main__":
    main()
