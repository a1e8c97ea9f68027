#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=None)))

BIN = "bytes of the output files, exit code, diagnostics with file and line, -sym2 and -temp files"
prop("C01", "Labels and address functions agree with where the bytes land",
 "In every successfully assembled program the value of a label, of the current-address symbol and of the address functions (virtual, physical, header size; with or without a label argument) equals the place the next emitted byte has in the output file: file offset = address - header size, as changed by origin, physical origin, header size, skip, alignment, fill, included binaries, data, areas and instructions. Every directive moves the position by exactly the number of bytes it emits or skips, and alignment pads with exactly the fewest bytes of the requested value.",
 ["programs"], "all programs over the layout directives, header sizes, file kinds and fill/alignment operands",
 "The tests assemble a few fixed programs; sizes and positions of every directive combine over passes, so agreement between the sizing pass and the writing pass has to hold for every combination.",
 ["Core/FileManager.cpp", "Commands/CDirectiveFile.cpp", "Commands/CAssemblerLabel.cpp", "Commands/CDirectiveData.cpp"],
 [("each command advances the position by its size during validation and writes that size during encoding", "Validate/Encode of every command class"),
  ("virtual/physical conversion by header size", "GenericAssemblerFile::seekVirtual/seekPhysical")],
 [("position of the open file", "virtual address and header size", "Core/FileManager.h")], [BIN])
prop("C02", "The output is a fixed point of all forward references",
 "In every successfully assembled program each emitted value equals its expression evaluated with the final value of every symbol, however many passes layout needs before sizes, conditions and addresses agree. A program whose layout never settles is rejected with an error and writes no output.",
 ["programs"], "all programs whose sizes, positions, conditions or encodings depend on symbols defined later",
 "Convergence depends on the whole dependency structure of a program; tests hold one or two forward references.",
 ["Core/Assembler.cpp", "Commands/CAssemblerLabel.cpp", "Commands/CDirectiveFile.cpp", "Commands/CDirectiveConditional.cpp", "Commands/CDirectiveArea.cpp"],
 [("validation repeats until no command reports a change, at most 100 passes", "encodeAssembly"),
  ("each command reports whether its size/value/decision changed", "Validate return values")],
 [("pass counter and symbol values", "repeated until stable", "Core/Assembler.cpp, Core/SymbolTable.h")], [BIN])
prop("C03", "Bytes the program does not emit stay as they were; files stay separate",
 "Patching an existing file, in place or as a copy, changes exactly the byte ranges the program emits into that file and nothing else; the source of a copy is never modified, created files start empty and gaps skipped over read as zero. What is emitted goes to the file that is open at that point of the program, whatever other files are opened before or after.",
 ["programs", "histories"], "all sequences of open, copy, create, close, reopen and writes at arbitrary positions in several files",
 "Tests patch no existing files with multiple open/close histories; the property is about every byte outside the touched ranges.",
 ["Core/FileManager.cpp", "Commands/CDirectiveFile.cpp"],
 [("open modes and seek/write on the active file", "GenericAssemblerFile::open, write, FileManager::openFile/closeFile")],
 [("active file", "the file that receives output", "Core/FileManager.h")], [BIN])
prop("C04", "A program with errors fails and leaves every output file untouched",
 "If any error is reported while a program is parsed, laid out or checked, the assembler exits with failure and no output, symbol or listing file is created or modified; otherwise it exits with success and writes all of them. Warnings and notices do not change the outcome unless warnings are turned into errors, and every problem with one statement is reported with the source file and line of that statement.",
 ["programs", "fault_sequences"], "all programs, with an error of any kind at any statement in any pass, with and without warnings-as-errors",
 "Tests compare error texts for single statements and never look at what happened to output files, at include lines, or at errors which only appear in later passes.",
 ["Core/Assembler.cpp", "Core/Misc.cpp", "Commands/CDirectiveMessage.cpp", "Parser/Parser.cpp"],
 [("diagnostics are queued per pass, printed once, and checked before anything is written", "encodeAssembly, Logger")],
 [("queued diagnostics", "those of the last pass count", "Core/Misc.cpp")], [BIN])
prop("C05", "Areas never overflow silently and are filled exactly to their end",
 "Content of an area that ends beyond the area's size is always an error. An area with a fill value emits that value into every byte of the area after its content and into no other byte and the program continues at its end, an area without one continues right after its content, also when nested. An area that starts inside another one's content, or inside another one while both fill, is reported.",
 ["programs"], "all nestings of areas with sizes, fill values, content sizes (also depending on forward references) and positions",
 "Tests contain a handful of areas; overflow by one byte, nesting, chunked filling and sizes known only in a later pass are combinations.",
 ["Commands/CDirectiveArea.cpp", "Core/Allocations.cpp"],
 [("content size is compared with area size on each pass", "CDirectiveArea::Validate"), ("overlap detection", "Allocations::validateOverlap")],
 [("registered areas", "file, position, size, usage, fill", "Core/Allocations.cpp")], [BIN])
prop("C06", "Automatic regions are placed in free region space and never overlap",
 "Every automatically placed block (that does not reposition itself) lies completely inside one region of the file that is open there, starts within its requested address range, and overlaps neither the region's own content nor another automatically placed block; the position of the surrounding code is the same as without the block. Region filling covers exactly the bytes no block uses, and a block that fits nowhere is an error.",
 ["programs", "histories"], "all sets of regions and automatic blocks, in any order, in several files, with ranges and with sizes that change between passes",
 "Placement is a multi-pass search over all regions that keeps earlier positions; tests contain a few fixed layouts.",
 ["Core/Allocations.cpp", "Commands/CDirectiveArea.cpp"],
 [("first-fit allocation with kept positions and trimming", "Allocations::allocateSubArea"), ("per-pass reset", "Allocations::clearSubAreas")],
 [("allocations and sub areas", "space, own usage and blocks of each region", "Core/Allocations.cpp")], [BIN])
prop("C07", "Every symbol reference resolves to the definition in its scope",
 "A global name denotes the same symbol in all files, a static name one symbol per source file inclusion, and a local name one symbol per section, a stretch of source text between two non-local labels, origin changes or file changes; names ignore case. Forward and backward references, definitions by value, and definedness tests all obey this; a second definition of the same symbol and a reference to one that is never defined are errors.",
 ["programs"], "all arrangements of global, static and local definitions and references over nested and repeated includes",
 "Scope is a function of the whole preceding text and of the include structure; tests have two or three such arrangements.",
 ["Core/SymbolTable.cpp", "Commands/CAssemblerLabel.cpp", "Core/Expression.cpp", "Parser/Parser.cpp"],
 [("symbols are keyed by name, file and section", "SymbolTable::getLabel, setFileSectionValues"), ("section counter advances at each non-local label, position and file command", "Global.Section")],
 [("symbol table", "name, file, section -> value, defined", "Core/SymbolTable.cpp")], [BIN])
prop("C08", "Exactly one branch of a conditional takes effect",
 "Of the branches of a conditional exactly the first whose condition holds takes effect (or the final else, or none), also when conditions are nested, chained, test definedness, or depend on symbols defined later. The other branches emit nothing, move nothing, define no symbol and report nothing except malformed statements; those known not to apply while reading also define no macro or text replacement and switch no mode or architecture.",
 ["programs"], "all nestings and chains of conditions, decided at parse time or only during layout",
 "The decision is made in two different places (while parsing, or on each layout pass) and must agree for every nesting; tests cover few.",
 ["Commands/CDirectiveConditional.cpp", "Parser/DirectivesParser.cpp", "Parser/Parser.cpp"],
 [("constant conditions prune at parse time", "parseDirectiveConditional, condition stack"), ("other conditions are re-evaluated on each pass", "CDirectiveConditional::Validate")],
 [("condition stack", "known true, known false or unknown", "Parser/Parser.h"), ("decision of last pass", "used when writing", "CDirectiveConditional")], [BIN])
prop("C09", "Symbol and listing files describe the bytes that were written",
 "The symbol file lists every label of the program with its final address and original spelling, every data range with its type and exact length, and (in the second format) every function with its exact size, sorted by address; sections switched off contribute nothing. The listing shows each statement that took effect, with the address its bytes have in the output and its source file and line, and writing either file changes no byte of the output.",
 ["programs", "schedules"], "all programs with labels, functions, data, areas and includes, in both symbol formats",
 "Tests never read a symbol or listing file.",
 ["Core/SymbolData.cpp", "Core/Misc.cpp", "Commands/CAssemblerLabel.cpp", "Commands/CDirectiveData.cpp"],
 [("each command reports its own final position", "writeSymData/writeTempData"), ("sorted output", "SymbolData::writeNocashSym")],
 [("symbol data", "labels, data ranges, functions", "Core/SymbolData.cpp")], [BIN])
prop("C10", "Text replacements substitute exactly within their scope",
 "After its definition a replacement name stands for its (non-empty) token sequence at every later use in its scope (global, per source file, per section), inside expressions, macro bodies, arguments and other replacements, and nowhere before its definition or outside its scope. Definitions given on the command line behave as if they preceded the program, and redefinition, recursion and definitions under undecided conditions are errors.",
 ["programs"], "all interleavings of definitions and uses, of all three scopes, nested, with includes and macros",
 "Replacement happens in the tokenizer with lookahead that must be re-examined after each definition; tests contain simple uses.",
 ["Parser/Tokenizer.cpp", "Parser/Parser.cpp", "Core/SymbolTable.cpp"],
 [("lookahead replacement of identifiers", "Tokenizer::processElement"), ("registration and re-check of lookahead", "Parser::addEquation, checkEquLabel")],
 [("replacement table", "name, file, section -> tokens", "Core/SymbolTable.cpp")], [BIN])
prop("C11", "A macro call means its body with arguments put in and labels made unique",
 "Each macro call produces exactly what its body would produce with every parameter replaced by the argument's tokens, for any argument expressions, nesting and recursion, and with labels defined in the body being distinct for every call while labels passed as arguments are those of the caller. Wrong argument counts and duplicate or misplaced definitions are errors, and runaway recursion ends in an error.",
 ["programs"], "all macro definitions, call nestings, argument shapes and label uses",
 "Hygiene and substitution depend on the call history; tests contain two or three macros.",
 ["Parser/Parser.cpp", "Parser/Tokenizer.cpp"],
 [("token replacement and per-call counter", "Parser::parseMacroCall, TokenStreamTokenizer")],
 [("macro table", "content, labels, call counter", "Parser/Parser.h")], [BIN])
prop("C12", "Expressions evaluate with C precedence in 64-bit two's complement",
 "Every expression has the value C's precedence and associativity give it in 64-bit two's complement arithmetic (right shift shifts in zeros), with documented string concatenation and comparison, float arithmetic, conditional operator, built-in functions and user-defined expression functions. Constant folding never changes a value, division by zero is reported, and arithmetic on operand types for which it has no meaning is an error.",
 ["inputs"], "all expression trees over all operators, value types and boundary operands",
 "Tests evaluate about thirty expressions; operator pairs times boundary operands is a product space.",
 ["Core/Expression.cpp", "Core/ExpressionFunctions.cpp", "Core/ExpressionFunctionHandler.cpp", "Parser/ExpressionParser.cpp"],
 [("recursive descent by precedence level", "Parser/ExpressionParser.cpp"), ("typed evaluation", "ExpressionInternal::evaluate, ExpressionValue operators")],
 [], [BIN])
prop("C13", "Meaning does not depend on spelling, spacing, comments or line layout",
 "Programs that differ only in comments (line and block), blank space, letter case of names, directives and opcodes, statement separators and line continuations, number base and string or character spelling with the same value, or text encoding of the source file assemble to identical outputs. Diagnostics name the physical line on which the statement starts.",
 ["inputs", "programs"], "all respellings of a program's token sequence",
 "Tests use one spelling of each construct.",
 ["Parser/Tokenizer.cpp", "Parser/Parser.cpp", "Util/FileClasses.cpp"],
 [("lexical analysis", "FileTokenizer::loadToken"), ("encoding detection and decoding", "TextFile")],
 [], [BIN])
prop("C14", "Data directives emit every value in its width and the current byte order",
 "Each data directive emits its operands in order, each integer as the low bytes of its two's complement value in the directive's width, each character of a string as one unit, each floating point value in IEEE format of the directive's width, in the byte order of the architecture selected at that point; text directives append exactly one terminator. Values that a directive cannot represent as described (floats in narrow data, non-ASCII characters) are errors.",
 ["inputs", "configurations"], "all directive names and aliases, widths, value types, architectures and switches between them",
 "Tests check few values per directive in one byte order.",
 ["Commands/CDirectiveData.cpp", "Core/FileManager.cpp", "Parser/DirectivesParser.cpp", "Archs/Architecture.cpp"],
 [("unit encoding and byte swapping", "CDirectiveData::Encode, FileManager::writeU16/32/64"), ("architecture command sets byte order", "ArchitectureCommand")],
 [("current byte order", "set by architecture directives", "Core/FileManager.cpp")], [BIN])
prop("C15", "Table-encoded text uses the longest matching entry, in order",
 "With a loaded character table every encoded string is the concatenation of the table's values for its successive longest matching entries, each hex value in written byte order, followed by the table's end marker exactly when the directive terminates; raw integers between strings are emitted as bytes. Text containing a character with no entry is an error, and the table in effect is the one most recently loaded at that point of the program.",
 ["inputs", "programs"], "all tables (multi-character keys, shared prefixes, multi-byte values, non-ASCII keys) and strings",
 "Tests load one table; longest match matters for shared prefixes.",
 ["Util/EncodingTable.cpp", "Commands/CDirectiveData.cpp"],
 [("trie lookup with longest match", "Util/EncodingTable.cpp")],
 [("loaded table", "current mapping", "Core/Common.h Global.Table")], [BIN])
prop("C16", "MIPS pseudo-instructions have their documented effect when executed",
 "Executing the code emitted for each MIPS pseudo-instruction (load immediate or address, load and store at an absolute address, upper and lower halves, unaligned loads and stores, absolute value, set and conditional-branch comparisons, rotations) with operands other than the assembler temporary, on any register and memory state leaves the destination register, memory and control flow as documented, whatever the operand values, and changes no register but the destination and the assembler temporary.",
 ["inputs", "histories"], "all operand values and register choices, and all initial machine states",
 "Tests compare bytes for a few operand values; equivalence over values and states is a universally quantified claim about execution.",
 ["Archs/MIPS/MipsMacros.cpp", "Archs/MIPS/MipsParser.cpp", "Archs/MIPS/CMipsInstruction.cpp"],
 [("template selection by operand value", "Archs/MIPS/MipsMacros.cpp")],
 [("operand value", "selects the instruction sequence", "MipsMacros.cpp templates")], [BIN])
prop("C17", "Pool loads read the requested value, at every distance and pool layout",
 "Executing an ARM or Thumb load of a value with the equals form always leaves exactly the requested 32-bit value in the register, whether it was turned into a move or into a read from a literal pool. Pool entries lie at the next pool statement after the load, word aligned, each distinct value is stored once, code after the pool is placed directly behind it, and a load that cannot reach its pool or has none is an error.",
 ["programs"], "all sequences of pool loads, pools, padding and forward-referenced values, in ARM and Thumb state",
 "Pools are laid out over several passes; tests have a few loads.",
 ["Archs/ARM/Pool.cpp", "Archs/ARM/Arm.cpp", "Archs/ARM/CArmInstruction.cpp", "Archs/ARM/CThumbInstruction.cpp"],
 [("pool collection and placement", "ArmPoolCommand, CArmArchitecture"), ("mov conversion", "ArmOpcodeCommand / Thumb load")],
 [("pool entries", "values waiting for the next pool", "Archs/ARM/Arm.cpp")], [BIN])
prop("C18", "ARM and Thumb operands are encoded exactly or rejected",
 "Every ARM or Thumb data-processing, load/store, multiply and block-transfer statement that assembles encodes exactly the registers, condition, flags, shift and immediate values written in the source when decoded by the architecture's rules (including documented complementary rewrites, which must compute the same result; immediate data of data-processing instructions and pool loads count modulo 2^32), and one whose immediate, offset or register cannot be encoded is an error.",
 ["inputs"], "all mnemonics, conditions, addressing forms and operand values including every encoding boundary",
 "Tests list a few encodings per format; immediates range over 2^32 values.",
 ["Archs/ARM/CArmInstruction.cpp", "Archs/ARM/CThumbInstruction.cpp", "Archs/ARM/ArmParser.cpp", "Archs/ARM/ArmOpcodes.cpp", "Archs/ARM/ThumbOpcodes.cpp"],
 [("immediate rotation search and range checks", "CArmInstruction::Validate, CThumbInstruction::Validate"), ("opcode tables", "ArmOpcodes.cpp, ThumbOpcodes.cpp")],
 [], [BIN])
prop("C19", "Branches reach exactly their target or are rejected",
 "Decoding the displacement of any assembled branch, jump or call instruction at its address yields exactly the target written in the source, for every architecture, direction and distance (absolute jumps: within their 256 MB segment); the two-part Thumb call, the forms that switch instruction set and delay-slot architectures included. A target out of range or not representable because of alignment is an error at the first unreachable distance and not before it.",
 ["inputs", "programs"], "all branch forms, all distances around every range limit, all alignments",
 "Tests never reach the range limits.",
 ["Archs/ARM/CArmInstruction.cpp", "Archs/ARM/CThumbInstruction.cpp", "Archs/MIPS/CMipsInstruction.cpp", "Archs/SuperH/CShInstruction.cpp"],
 [("displacement computation and range checks", "Validate of each instruction class")],
 [], [BIN])
prop("C20", "MIPS and SuperH instructions encode the fields written in the source",
 "Every MIPS and SuperH instruction that assembles decodes, by the architecture's encoding rules and in its byte order, to the same operation with the same registers and immediate written in the source; immediates that need more bits than the field has, wrong registers and instructions the selected processor does not have are errors.",
 ["inputs", "configurations"], "all mnemonics of each supported processor, all registers and immediates at field boundaries",
 "Tests list a few encodings per format.",
 ["Archs/MIPS/CMipsInstruction.cpp", "Archs/MIPS/MipsOpcodes.cpp", "Archs/MIPS/MipsParser.cpp", "Archs/SuperH/CShInstruction.cpp", "Archs/SuperH/ShOpcodes.cpp"],
 [("opcode tables and field packing", "MipsOpcodes.cpp, CMipsInstruction::encode, ShOpcodes.cpp")],
 [], [BIN])
prop("C21", "Load-delay hazards on the PlayStation are all detected or fixed",
 "On a processor with load delay slots, whenever an instruction directly follows a load and has the loaded register as operand, the hazard is reported, or with automatic fixing one no-operation is inserted between the two and every address after it accounts for that. Nothing is reported or inserted where no hazard exists, and the tracking is reset by the documented directives and by position changes.",
 ["programs"], "all sequences of loads, users, branches, data and directives",
 "The hazard depends on the instruction history and on passes; tests cover a few pairs.",
 ["Archs/MIPS/Mips.cpp", "Archs/MIPS/CMipsInstruction.cpp", "Archs/MIPS/MipsParser.cpp"],
 [("delayed register state", "CMipsArchitecture, CMipsInstruction::Validate")],
 [("pending load register", "set by loads, cleared by the next instruction", "Archs/MIPS/Mips.cpp")], [BIN])
prop("C22", "Imported object code is placed and relocated to its final addresses",
 "Each code and data section of an imported object or library appears unchanged in the output at its aligned position, except for the relocated fields, which hold the final address of the symbol they refer to plus their addend in the relocation's own encoding; symbols of the object and of the program see each other under the usual scoping rules. The constructor function an import can ask for calls every entry of the constructor sections in order and returns to its caller with the stack and the registers it has to keep unchanged. Undefined or duplicate symbols and unsupported relocations are errors.",
 ["inputs"], "all object files over the supported relocation types, sections, alignments and symbol bindings, at any import address",
 "Tests import a few prebuilt objects at one address.",
 ["Core/ELF/ElfRelocator.cpp", "Core/ELF/ElfFile.cpp", "Archs/MIPS/MipsElfRelocator.cpp", "Archs/ARM/ArmElfRelocator.cpp", "Archs/SuperH/ShElfRelocator.cpp", "Archs/MIPS/PsxRelocator.cpp"],
 [("section layout and relocation", "ElfRelocator::relocate, relocateFile"), ("architecture specific relocation", "relocateOpcode")],
 [("relocated data", "recomputed on each pass", "ElfRelocator")], [BIN])
prop("C23", "Results depend only on the inputs, not on earlier runs or thread timing",
 "Assembling the same program with the same arguments always produces the same outputs and diagnostics: repeated in one process, after any other programs, successful or failing, were assembled in that process, with or without symbol and listing output, and under every timing of the threads that write them.",
 ["histories", "schedules"], "all sequences of programs assembled in one process, and all thread interleavings of the writers",
 "Tests run each program once in a fixed order and compare only final bytes.",
 ["Core/Assembler.cpp", "Core/Common.cpp", "Core/Allocations.cpp", "Core/SymbolTable.cpp", "Core/Misc.cpp"],
 [("reset of all global state at the start of a run", "runArmips"), ("writers only read shared state", "encodeAssembly")],
 [("global state", "everything that survives a run", "Core/Common.h")], [BIN])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
