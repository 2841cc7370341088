package dspbig;

import java.math.BigInteger;
import tlc2.tool.EvalException;
import tlc2.tool.FingerprintException;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.Values;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;
import util.Assert;

/** An integer outside the 32-bit range of TLC's IntValue. */
public final class BigValue extends Value {
    final BigInteger v;

    private BigValue(BigInteger v) { this.v = v; }

    public static Value of(BigInteger b) {
        return b.bitLength() <= 31 ? IntValue.gen(b.intValue()) : new BigValue(b);
    }
    public static BigInteger get(Value x) {
        if (x instanceof IntValue) return BigInteger.valueOf(((IntValue) x).val);
        if (x instanceof BigValue) return ((BigValue) x).v;
        throw new IllegalArgumentException("integer expected: " + x);
    }
    @Override public byte getKind() { return INTVALUE; }
    @Override public int compareTo(Object o) { return v.compareTo(get((Value) o)); }
    @Override public boolean equals(Object o) { return o instanceof Value && (o instanceof IntValue || o instanceof BigValue) && v.equals(get((Value) o)); }
    @Override public boolean member(Value e) { throw new IllegalArgumentException("not a set: " + v); }
    @Override public boolean isFinite() { throw new IllegalArgumentException("not a set: " + v); }
    @Override public Value takeExcept(ValueExcept e) {
        if (e.idx < e.path.length) throw new IllegalArgumentException("not a function: " + v);
        return e.value;
    }
    @Override public Value takeExcept(ValueExcept[] e) {
        Value r = this;
        for (ValueExcept x : e) r = r.takeExcept(x);
        return r;
    }
    @Override public int size() { throw new IllegalArgumentException("no size: " + v); }
    @Override public boolean mutates() { return false; }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public long fingerPrint(long fp) {
        fp = tlc2.util.FP64.Extend(fp, 0x42494721);
        for (byte b : v.toByteArray()) fp = tlc2.util.FP64.Extend(fp, b);
        return fp;
    }
    @Override public IValue permute(IMVPerm p) { return this; }
    @Override public StringBuffer toString(StringBuffer sb, int off, boolean swallow) { return sb.append(v.toString()); }
}
