---- MODULE I64Test ----
EXTENDS I64, Json, IOUtils, TLC
VARIABLE d
T == JsonDeserialize(IOEnv.CASES)
Chk(t) == LET x == t.x y == t.y IN
  /\ Assert(Add(x,y)=t.add,<<"add",t>>) /\ Assert(Sub(x,y)=t.sub,<<"sub",t>>) /\ Assert(Mul(x,y)=t.mul,<<"mul",t>>)
  /\ Assert(Lt(x,y)=t.lt,<<"lt",t>>) /\ Assert(Shl(x,t.n)=t.shl,<<"shl",t>>) /\ Assert(Shr(x,t.n)=t.shr,<<"shr",t>>)
  /\ (y # Zero => Assert(UDivMod(x,y)= <<t.udiv,t.umod>>,<<"udiv",t>>))
  /\ (y # Zero => Assert(DivV(x,y)=t.div /\ ModV(x,y)=t.mod,<<"div",t>>))
  /\ Assert(Dec(x)=t.dec,<<"dec",t>>) /\ Assert(UHex(x)=t.hex,<<"hex",t>>)
  /\ Assert(BAnd(x,y)=t.and /\ BOr(x,y)=t.or /\ BXor(x,y)=t.xor,<<"bit",t>>)
Init == d = 0 /\ \A i \in 1..Len(T) : Chk(T[i])
Next == UNCHANGED d
====
