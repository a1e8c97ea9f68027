# development aid: print the source of the case whose behaviour violates an invariant
import sys, re
import gen_core
prof, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
out = open("../work/tlc-error.txt").read()
print(re.findall("Error: Invariant.*", out))
c = int(re.findall(r"(?m)^  c \|-> (\d+)|\[ c \|-> (\d+)|^/?\\? ?s = \[ ?c \|-> (\d+)", out)[-1][0] or 0) if re.findall(r"(?m)^  c \|-> (\d+)", out) else int(re.findall(r"[^a-z]c \|-> (\d+)", out)[-1])
p = gen_core.program("%s/%d/%d" % (prof, seed, c-1), prof)
j = p.job("x")
for nme, b in j["src"].items():
    print(nme)
    for k, l in enumerate(b.decode().split("\n")): print("%3d %s" % (k+1, l))
t = out[out.rfind("State "):]
print(t[t.find("subs |->"):][:3000])
