package vf;
// Accelerators for operators of spec/I64.tla.  The TLA+ definitions are the meaning; the self test
// (lib/selftest, I64Test.tla) evaluates both on the same operands and compares.
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

public class I64Overrides implements ITLCOverrides {
    static long toL(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        long r = 0;
        for (int i = 0; i < 4; i++) r |= ((long) ((IntValue) e[i]).val & 0xffff) << (16 * i);
        return r;
    }
    static Value toV(long x) {
        return new TupleValue(new Value[] { IntValue.gen((int) (x & 0xffff)), IntValue.gen((int) ((x >>> 16) & 0xffff)),
            IntValue.gen((int) ((x >>> 32) & 0xffff)), IntValue.gen((int) ((x >>> 48) & 0xffff)) });
    }
    static BoolValue toB(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static int n(Value v) { return ((IntValue) v).val; }
    static Value chars(String s) {
        Value[] e = new Value[s.length()];
        for (int i = 0; i < e.length; i++) e[i] = IntValue.gen(s.charAt(i));
        return new TupleValue(e);
    }
    @TLAPlusOperator(identifier = "Bnot", module = "I64", warn = false)
    public static Value bnot(Value x) { return toV(~toL(x)); }
    @TLAPlusOperator(identifier = "Add", module = "I64", warn = false)
    public static Value add(Value x, Value y) { return toV(toL(x) + toL(y)); }
    @TLAPlusOperator(identifier = "Neg", module = "I64", warn = false)
    public static Value neg(Value x) { return toV(-toL(x)); }
    @TLAPlusOperator(identifier = "Sub", module = "I64", warn = false)
    public static Value sub(Value x, Value y) { return toV(toL(x) - toL(y)); }
    @TLAPlusOperator(identifier = "Mul", module = "I64", warn = false)
    public static Value mul(Value x, Value y) { return toV(toL(x) * toL(y)); }
    @TLAPlusOperator(identifier = "V", module = "I64", warn = false)
    public static Value v(Value x) { return toV(n(x)); }
    @TLAPlusOperator(identifier = "ULt", module = "I64", warn = false)
    public static Value ult(Value x, Value y) { return toB(Long.compareUnsigned(toL(x), toL(y)) < 0); }
    @TLAPlusOperator(identifier = "Lt", module = "I64", warn = false)
    public static Value lt(Value x, Value y) { return toB(toL(x) < toL(y)); }
    @TLAPlusOperator(identifier = "Le", module = "I64", warn = false)
    public static Value le(Value x, Value y) { return toB(toL(x) <= toL(y)); }
    @TLAPlusOperator(identifier = "BAnd", module = "I64", warn = false)
    public static Value band(Value x, Value y) { return toV(toL(x) & toL(y)); }
    @TLAPlusOperator(identifier = "BOr", module = "I64", warn = false)
    public static Value bor(Value x, Value y) { return toV(toL(x) | toL(y)); }
    @TLAPlusOperator(identifier = "BXor", module = "I64", warn = false)
    public static Value bxor(Value x, Value y) { return toV(toL(x) ^ toL(y)); }
    @TLAPlusOperator(identifier = "Shl", module = "I64", warn = false)
    public static Value shl(Value x, Value y) { return toV(toL(x) << n(y)); }
    @TLAPlusOperator(identifier = "Shr", module = "I64", warn = false)
    public static Value shr(Value x, Value y) { return toV(toL(x) >>> n(y)); }
    @TLAPlusOperator(identifier = "Bit", module = "I64", warn = false)
    public static Value bit(Value x, Value y) { return IntValue.gen((int) ((toL(x) >>> n(y)) & 1)); }
    @TLAPlusOperator(identifier = "UDivMod", module = "I64", warn = false)
    public static Value udivmod(Value x, Value y) {
        long a = toL(x), b = toL(y);
        return new TupleValue(new Value[] { toV(Long.divideUnsigned(a, b)), toV(Long.remainderUnsigned(a, b)) });
    }
    @TLAPlusOperator(identifier = "Dec", module = "I64", warn = false)
    public static Value dec(Value x) { return chars(Long.toString(toL(x))); }
    @TLAPlusOperator(identifier = "UHex", module = "I64", warn = false)
    public static Value uhex(Value x) { return chars(Long.toHexString(toL(x)).toUpperCase()); }
    @TLAPlusOperator(identifier = "BytesOf", module = "I64", warn = false)
    public static Value bytesOf(Value x, Value y, Value big) {
        long a = toL(x); int k = n(y); boolean b = ((BoolValue) big).val;
        Value[] e = new Value[k];
        for (int i = 0; i < k; i++) e[b ? k - 1 - i : i] = IntValue.gen((int) ((a >>> (8 * i)) & 0xff));
        return new TupleValue(e);
    }
    @Override public Class[] get() { return new Class[] { I64Overrides.class, CaseIOOverrides.class }; }
}
