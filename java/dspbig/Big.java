package dspbig;

import java.math.BigDecimal;
import java.math.BigInteger;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** Arbitrary-precision overrides of the operators of spec/lib/Big.tla. */
public final class Big {
    private static BigInteger g(Value x) { return BigValue.get(x); }
    private static Value r(BigInteger b) { return BigValue.of(b); }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    private static boolean small(Value a, Value b) { return a instanceof IntValue && b instanceof IntValue; }

    @TLAPlusOperator(identifier = "++", module = "Big", warn = false)
    public static Value add(final Value a, final Value b) { return r(g(a).add(g(b))); }
    @TLAPlusOperator(identifier = "--", module = "Big", warn = false)
    public static Value sub(final Value a, final Value b) { return r(g(a).subtract(g(b))); }
    @TLAPlusOperator(identifier = "**", module = "Big", warn = false)
    public static Value mul(final Value a, final Value b) { return r(g(a).multiply(g(b))); }
    private static BigInteger floorDiv(BigInteger x, BigInteger y) {
        if (y.signum() <= 0) throw new IllegalArgumentException("divisor not positive: " + y);
        BigInteger[] q = x.divideAndRemainder(y);
        return q[1].signum() < 0 ? q[0].subtract(BigInteger.ONE) : q[0];
    }
    @TLAPlusOperator(identifier = "//", module = "Big", warn = false)
    public static Value div(final Value a, final Value b) { return r(floorDiv(g(a), g(b))); }
    @TLAPlusOperator(identifier = "%%", module = "Big", warn = false)
    public static Value mod(final Value a, final Value b) { return r(g(a).mod(g(b))); }
    @TLAPlusOperator(identifier = "\\prec", module = "Big", warn = false)
    public static Value lt(final Value x, final Value y) { return b(g(x).compareTo(g(y)) < 0); }
    @TLAPlusOperator(identifier = "\\preceq", module = "Big", warn = false)
    public static Value le(final Value x, final Value y) { return b(g(x).compareTo(g(y)) <= 0); }
    @TLAPlusOperator(identifier = "\\succ", module = "Big", warn = false)
    public static Value gt(final Value x, final Value y) { return b(g(x).compareTo(g(y)) > 0); }
    @TLAPlusOperator(identifier = "\\succeq", module = "Big", warn = false)
    public static Value ge(final Value x, final Value y) { return b(g(x).compareTo(g(y)) >= 0); }
    @TLAPlusOperator(identifier = "BEq", module = "Big", warn = false)
    public static Value eq(final Value x, final Value y) { return b(g(x).equals(g(y))); }
    @TLAPlusOperator(identifier = "BNeg", module = "Big", warn = false)
    public static Value neg(final Value a) { return r(g(a).negate()); }
    @TLAPlusOperator(identifier = "BAbs", module = "Big", warn = false)
    public static Value abs(final Value a) { return r(g(a).abs()); }
    @TLAPlusOperator(identifier = "BMax", module = "Big", warn = false)
    public static Value max(final Value a, final Value b) { return r(g(a).max(g(b))); }
    @TLAPlusOperator(identifier = "BMin", module = "Big", warn = false)
    public static Value min(final Value a, final Value b) { return r(g(a).min(g(b))); }
    @TLAPlusOperator(identifier = "Shl", module = "Big", warn = false)
    public static Value shl(final Value a, final Value k) { return r(g(a).shiftLeft(g(k).intValueExact())); }
    @TLAPlusOperator(identifier = "Shr", module = "Big", warn = false)
    public static Value shr(final Value a, final Value k) { return r(g(a).shiftRight(g(k).intValueExact())); }
    @TLAPlusOperator(identifier = "BLen", module = "Big", warn = false)
    public static Value len(final Value a) { return r(BigInteger.valueOf(g(a).abs().bitLength())); }
    @TLAPlusOperator(identifier = "BSqrt", module = "Big", warn = false)
    public static Value sqrt(final Value a) { return r(g(a).sqrt()); }
    @TLAPlusOperator(identifier = "RoundShr", module = "Big", warn = false)
    public static Value roundShr(final Value a, final Value k) { return r(roundShr(g(a), g(k).intValueExact())); }
    private static BigInteger roundShr(BigInteger x, int k) {
        if (k <= 0) return x.shiftLeft(-k);
        BigInteger q = x.shiftRight(k);
        BigInteger rem = x.subtract(q.shiftLeft(k));
        int c = rem.shiftLeft(1).compareTo(BigInteger.ONE.shiftLeft(k));
        return c < 0 ? q : c > 0 ? q.add(BigInteger.ONE) : q.testBit(0) ? q.add(BigInteger.ONE) : q;
    }
    private static Value[] seq(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        if (t == null) throw new IllegalArgumentException("sequence expected: " + s);
        return t.elems;
    }
    @TLAPlusOperator(identifier = "Dot", module = "Big", warn = false)
    public static Value dot(final Value s, final Value t) {
        Value[] a = seq(s), b = seq(t);
        BigInteger sum = BigInteger.ZERO;
        for (int i = 0; i < a.length; ++i) sum = sum.add(g(a[i]).multiply(g(b[i])));
        return r(sum);
    }
    @TLAPlusOperator(identifier = "BSeq", module = "Big", warn = false)
    public static Value bseq(final Value s) {
        Value[] a = seq(s), o = new Value[a.length];
        for (int i = 0; i < a.length; ++i) o[i] = r(g(a[i]));
        return new TupleValue(o);
    }
    @TLAPlusOperator(identifier = "DotMod", module = "Big", warn = false)
    public static Value dotMod(final Value s, final Value t, final Value k) {
        Value[] a = seq(s), b = seq(t);
        long step = Math.floorMod(g(k).longValueExact(), (long)b.length), j = 0;
        BigInteger sum = BigInteger.ZERO;
        for (int i = 0; i < a.length; ++i, j = (j + step) % b.length) sum = sum.add(g(a[i]).multiply(g(b[(int)j])));
        return r(sum);
    }
    @TLAPlusOperator(identifier = "Convolve", module = "Big", warn = false)
    public static Value convolve(final Value s, final Value t) {
        Value[] a = seq(s), b = seq(t);
        Value[] o = new Value[Math.max(0, b.length - a.length + 1)];
        for (int i = 0; i < o.length; ++i) {
            BigInteger sum = BigInteger.ZERO;
            for (int j = 0; j < a.length; ++j) sum = sum.add(g(a[j]).multiply(g(b[i + j])));
            o[i] = r(sum);
        }
        return new TupleValue(o);
    }
    @TLAPlusOperator(identifier = "BSum", module = "Big", warn = false)
    public static Value sum(final Value s) {
        BigInteger sum = BigInteger.ZERO;
        for (Value x : seq(s)) sum = sum.add(g(x));
        return r(sum);
    }
    @TLAPlusOperator(identifier = "BAbsSum", module = "Big", warn = false)
    public static Value absSum(final Value s) {
        BigInteger sum = BigInteger.ZERO;
        for (Value x : seq(s)) sum = sum.add(g(x).abs());
        return r(sum);
    }
    @TLAPlusOperator(identifier = "BMaxAbs", module = "Big", warn = false)
    public static Value maxAbs(final Value s) {
        BigInteger m = BigInteger.ZERO;
        for (Value x : seq(s)) m = m.max(g(x).abs());
        return r(m);
    }
    @TLAPlusOperator(identifier = "BMaxOf", module = "Big", warn = false)
    public static Value maxOf(final Value s) {
        BigInteger m = null;
        for (Value x : seq(s)) m = m == null ? g(x) : m.max(g(x));
        return r(m);
    }
    @TLAPlusOperator(identifier = "BMinOf", module = "Big", warn = false)
    public static Value minOf(final Value s) {
        BigInteger m = null;
        for (Value x : seq(s)) m = m == null ? g(x) : m.min(g(x));
        return r(m);
    }
    @TLAPlusOperator(identifier = "BSort", module = "Big", warn = false)
    public static Value sort(final Value s) {
        Value[] a = seq(s).clone();
        java.util.Arrays.sort(a, (x, y) -> g(x).compareTo(g(y)));
        return new TupleValue(a);
    }
    private static String str(Value s) { return ((StringValue) s).val.toString(); }
    @TLAPlusOperator(identifier = "BInt", module = "Big", warn = false)
    public static Value bint(final Value s) { return r(new BigInteger(str(s))); }

    private static final BigInteger FAR = BigInteger.ONE.shiftLeft(20000);
    static BigInteger flt(String s, int k) {
        if (s.contains("n")) // nan, -nan, inf, -inf
            return FAR.shiftLeft(Math.max(k, 0));
        // [-]0xH.HHHHp[+-]D
        boolean neg = s.startsWith("-");
        int x = s.indexOf('x'), p = s.indexOf('p');
        String m = s.substring(x + 1, p);
        int e = Integer.parseInt(s.charAt(p + 1) == '+' ? s.substring(p + 2) : s.substring(p + 1));
        int dot = m.indexOf('.');
        if (dot >= 0) {
            e -= 4 * (m.length() - dot - 1);
            m = m.substring(0, dot) + m.substring(dot + 1);
        }
        BigInteger v = roundShr(new BigInteger(m, 16), -(e + k));
        return neg ? v.negate() : v;
    }
    @TLAPlusOperator(identifier = "IsFinite", module = "Big", warn = false)
    public static Value isFinite(final Value s) { return b(!str(s).contains("n")); }
    @TLAPlusOperator(identifier = "FltAt", module = "Big", warn = false)
    public static Value fltAt(final Value s, final Value k) { return r(flt(str(s), g(k).intValueExact())); }
    @TLAPlusOperator(identifier = "FltSeqAt", module = "Big", warn = false)
    public static Value fltSeqAt(final Value s, final Value k) {
        Value[] a = seq(s), o = new Value[a.length];
        int kk = g(k).intValueExact();
        for (int i = 0; i < a.length; ++i) o[i] = r(flt(str(a[i]), kk));
        return new TupleValue(o);
    }
}
