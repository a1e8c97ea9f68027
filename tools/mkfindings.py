import subprocess
log=subprocess.run(["git","-C","/repo","log","--reverse","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
props={"importing objects with an alignment":"C22","references to common":"C22","imported objects decided":"C22","calls between ARM and Thumb code in imported":"C22","calls in imported":"C22","Thumb calls in imported":"C22","object imports in branches":"C22","object imports ignored":"C22","the constructor function":"C22","pool loads of labels behind":"C17","references at several offsets":"C22","symbols of PSX":"C22","references of PSX":"C22","importing objects with an alignment":"C22","references to common":"C22","imported objects decided":"C22","calls between ARM and Thumb code in imported":"C22","calls in imported":"C22","Thumb calls in imported":"C22","object imports in branches":"C22","object imports ignored":"C22","the constructor function":"C22","pool loads of labels behind":"C17","references at several offsets":"C22","symbols of PSX":"C22","references of PSX":"C22","errors in the arguments":"C23","errors found while writing":"C23","outputs that fail":"C23","labels of different":"C11","Thumb push and pop":"C18","ARM shift amounts":"C18","ARM coprocessor":"C18","psr fields":"C18","ARM branches and loads":"C19","negative swi":"C18","register of strh":"C18","ARM and Thumb immediates":"C18","range of Thumb blx":"C19","Thumb ldr from [pc]":"C18","encoding of smlal":"C18","negative offsets of ldrd":"C18","user mode ARM":"C18","post-indexed str":"C18","start encoding with":"C14","max() of":"C12","logical and/or":"C12","report .headersize":"C04","clear pools":"C23","do not modify the allocations when":"C06","reject negative .fill":"C04","align negative":"C01","reject negative .incbin":"C04","report a substr":"C12","take line, file and section":"C08","make equs unique":"C11",".resetdelay only":"C21","reject MIPS branches":"C19","reset the MIPS load":"C23","directives in known false":"C08","do not run out of memory":"C10","macro parameters and labels":"C11","forget areas":"C05","report \"File not":"C04","blocks that don't":"C08","nothing in a false":"C08","org() of a label":"C07","lay out again":"C06","tell areas from":"C06","filling a region":"C05","warn about a negative":"C08","spelling out function":"C12","negative label values":"C12","clearing an encoding table":"C23","text before the first":"C15","sizes of nested":"C09","operand patterns with":"C20","SuperH immediates":"C20","SuperH indirect":"C20","condition numbers":"C20","MIPS immediates":"C20","MIPS branches behind":"C21","MIPS comparison macros":"C16","unaligned MIPS macros":"C16","org() in MIPS":"C16","li.s keeps":"C16","analyzing a macro":"C11","macro calls in known":"C11","static equs at":"C10","equ values inside":"C10","equ values with":"C10","unterminated block":"C13","character constants at":"C13","malformed operands":"C13","only half of a file":"C13","text after a lone":"C13","half-width katakana":"C13"}
out=["# Genuine defects found by the checks. `fixed:` entries are repaired in /repo and suppress nothing;",
"# `known:` entries are printed as KNOWN-FINDING lines; the specification allows exactly the behaviour they describe."]
for l in log:
    h,m=l.split(" ",1)
    if not m.startswith("fix: "): continue
    m=m[5:]
    k=[v for a,v in props.items() if m.startswith(a)]
    assert k,m
    out.append("fixed: property=%s %s %s"%(k[0],h,m))
out += [
"known: property=C16 ulh rd,off(rs) on every MIPS processor: the low byte is loaded with its sign, so its upper bits overwrite the high byte when bit 7 is set (pinned by Tests/MIPS/Macros)",
"known: property=C16 ulh, ulhu, ulw, uld, ush, usw, usd on the big-endian processors .n64 and .rsp: emitted in little-endian byte order (pinned by Tests/MIPS/Macros)"]
open("/verif/known_findings.txt","w").write("\n".join(out)+"\n")
