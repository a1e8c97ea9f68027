"""The suites of each property."""
from driver import Suite
import gen_core, gen_expr, gen_data, gen_sym, gen_ins, gen_mac, gen_arm, gen_front

def core(prof, quick, thorough, name="programs"):
    return Suite(name, "AsmRun", lambda seed, n: [gen_core.program("%s/%d/%d" % (prof, seed, i), prof) for i in range(n)], quick, thorough)

CORE_RULE = ("random programs over the statements of the profile, with forward references and error statements; distinct by source text, "
             "arguments and input files; non-trivial when the program assembled or a diagnostic was reported")

CHECKS = {}
for prof, q, t in (("C01", 3000, 60000), ("C02", 1000, 40000), ("C03", 3000, 60000), ("C04", 3000, 60000), ("C05", 2000, 40000),
                   ("C06", 2000, 40000), ("C08", 1200, 30000), ("C09", 1500, 30000)):
    CHECKS[prof] = dict(suites=[core(prof, q, t)], level="model_checking", rule=CORE_RULE)
CHECKS["C02"]["suites"].append(core("C02s", 6000, 150000, "chains"))

CHECKS["C07"] = dict(suites=[Suite("scopes", "AsmRun", lambda seed, n: [gen_sym.program("C07/%d/%d" % (seed, i)) for i in range(n)], 4000, 80000)], level="model_checking",
                     rule="random programs of labels and definitions of all scopes over few names and spellings, with includes, sections, conditionals, forward and backward "
                          "references and definedness tests; distinct by source text; non-trivial when assembled or reported")
CHECKS["C12"] = dict(suites=[Suite("expressions", "AsmRun", lambda seed, n: [gen_expr.program("C12/%d/%d" % (seed, i)) for i in range(n)], 5000, 80000),
                             Suite("operators", "AsmRun", gen_expr.sweep, 1, 1)], level="model_checking",
                     rule="random typed expression trees over all operators and functions (constant, with later symbols, in user functions), and every operator on "
                          "all pairs of edge values and every pair of operators without parentheses; distinct by source text; non-trivial when evaluated or reported")

CHECKS["C14"] = dict(suites=[Suite("data", "AsmRun", lambda seed, n: [gen_data.program("C14/%d/%d" % (seed, i)) for i in range(n)], 4000, 80000)], level="model_checking",
                     rule="random programs over all data directive names, architectures, switches, value types and conditional blocks; distinct by source text; non-trivial when assembled or reported")
CHECKS["C15"] = dict(suites=[Suite("tables", "AsmRun", lambda seed, n: [gen_data.tables("C15/%d/%d" % (seed, i)) for i in range(n)], 3000, 60000)], level="model_checking",
                     rule="random tables with shared prefixes and multi-byte values, strings over them, table switches and conditional blocks; distinct by source text and tables; non-trivial when assembled or reported")

def ins(prof, quick, thorough, name="instructions"):
    g = getattr(gen_ins, "program" + prof[1:])
    return Suite(name, "InsRun", lambda seed, n: [g("%s/%d/%d" % (prof, seed, i)) for i in range(n)], quick, thorough)
def arm(prof, quick, thorough, name):
    g = getattr(gen_arm, "program" + prof[1:])
    return Suite(name, "ArmRun", lambda seed, n: [g("%s/%d/%d" % (prof, seed, i)) for i in range(n)], quick, thorough)
CHECKS["C17"] = dict(suites=[arm("C17", 3000, 60000, "pools")], level="model_checking",
                     rule="random programs of pool loads (numbers, floats, positions, labels before and after), pools, padding up to and over the reach of a load, data, debug messages and "
                          "switches between ARM and Thumb state; distinct by source text; non-trivial when assembled or reported")
CHECKS["C18"] = dict(suites=[arm("C18", 16000, 200000, "instructions")], level="model_checking",
                     rule="random ARM and Thumb instructions of every form with conditions, flags, shifts, register lists, right and wrong operands at the edges of their fields; "
                          "distinct by source text; non-trivial when assembled or reported")
CHECKS["C19"] = dict(suites=[ins("C19", 5000, 100000, "branches"), arm("C19", 6000, 100000, "ARM branches")], level="model_checking",
                     rule="random programs of branches, jumps and PC-relative loads of every kind over labels before and after, at distances around the limits and with misaligned "
                          "and out of range targets; distinct by source text; non-trivial when assembled or reported")
CHECKS["C20"] = dict(suites=[ins("C20", 6000, 150000)], level="model_checking",
                     rule="random instructions from the whole instruction tables of all MIPS processors and SuperH, operands right and wrong at the edges of their fields; "
                          "distinct by source text; non-trivial when assembled or reported")
CHECKS["C21"] = dict(suites=[ins("C21", 6000, 150000, "hazards")], level="model_checking",
                     rule="random sequences of loads, uses, branches, position changes, reset directives and processor changes over few registers, with and without automatic fixing; "
                          "distinct by source text; non-trivial when assembled or reported")

CHECKS["C16"] = dict(suites=[Suite("macros", "MacRun", lambda seed, n: [gen_mac.program("C16/%d/%d" % (seed, i)) for i in range(n)], 6000, 150000)], level="model_checking",
                     rule="random pseudo-instructions of every kind on every MIPS processor with edge immediates (numbers, positions, symbols before and after), overlapping registers and "
                          "out of range values, executed by the specified processor from edge register contents; distinct by source text; non-trivial when assembled or reported")

def front(prof, quick, thorough, name):
    g = getattr(gen_front, "program" + prof[1:])
    return Suite(name, "Front", lambda seed, n: [g("%s/%d/%d" % (prof, seed, i)) for i in range(n)], quick, thorough)
CHECKS["C08"]["suites"].append(front("C08", 1500, 40000, "definitions in branches"))
CHECKS["C10"] = dict(suites=[front("C10", 2500, 40000, "replacements")], level="model_checking",
                     rule="random programs whose token runs were hoisted into replacements of all scopes, with values of every shape (strings, comments, other names), redefinitions, uses in macros, "
                          "includes and blocks, replacements from the command line and misplaced ones; distinct by source text and arguments; non-trivial when assembled or reported")
CHECKS["C11"] = dict(suites=[front("C11", 1600, 30000, "macros")], level="model_checking",
                     rule="random macros (nested, recursive, with labels of every scope, conditionals, replacements, functions, includes) and calls of them with token arguments of every shape, wrong counts "
                          "and wrong places; distinct by source text; non-trivial when assembled or reported")
CHECKS["C13"] = dict(suites=[front("C13", 3000, 50000, "spellings")], level="model_checking",
                     rule="random programs of the other profiles written in random spelling (case, blanks, comments, separators, continuations, number bases, encodings) and with malformed statements, read by "
                          "the specified lexer and parser; distinct by source text; non-trivial when assembled or reported")

import gen_elf
CHECKS["C22"] = dict(suites=[Suite("imports", "ElfRun", lambda seed, n: [gen_elf.program("C22/%d/%d" % (seed, i)) for i in range(n)], 7000, 150000),
                             Suite("PlayStation imports", "ElfRun", lambda seed, n: [gen_elf.program("C22p/%d/%d" % (seed, i), "psx") for i in range(n)], 4000, 60000)], level="model_checking",
                     rule="random programs importing ELF objects, archives and PlayStation objects written by the generator: sections of every kind and alignment, every relocation type with edge opcodes and "
                          "addends, symbols of every kind, targets at the limits of branches, constructor functions executed by the specified processors; distinct by sources and objects; "
                          "non-trivial when assembled or reported")
import gen_hist
CHECKS["C23"] = dict(suites=[Suite("histories", "HistRun", gen_hist.histories, 1500, 30000, binary="harness"),
                             Suite("after others", "AsmRun", gen_hist.after("AsmRun"), 600, 20000, binary="harness"),
                             Suite("front end after others", "Front", gen_hist.after("Front"), 200, 8000, binary="harness"),
                             Suite("instructions after others", "InsRun", gen_hist.after("InsRun"), 150, 8000, binary="harness"),
                             Suite("ARM after others", "ArmRun", gen_hist.after("ArmRun"), 150, 8000, binary="harness"),
                             Suite("macros after others", "MacRun", gen_hist.after("MacRun"), 100, 4000, binary="harness")], level="model_checking",
                     rule="sequences of programs in one process: the histories TLC finds to tell an implementation that forgets to reset an area from the right one, with programs that write and read what "
                          "the area keeps, failing programs and programs of all other suites in between, writer threads interleaved as TLC enumerates; distinct by sources and arguments; "
                          "non-trivial when the last program assembled or was reported")

NOTE = ("Each program is run through the real assembler (rebuilt from /repo) and through the TLA+ specification; TLC decides whether exit code, "
        "diagnostics and every output byte are what the specification allows, and checks the specification's own invariants on every state. "
        "Bounded by the number and size of generated programs; trusts TLC, the renderer and the observation of the process.")
NOT_YET = {}
