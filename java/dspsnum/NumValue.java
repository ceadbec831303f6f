package dspsnum;

import java.io.IOException;
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.concurrent.ConcurrentHashMap;

import tlc2.tool.FingerprintException;
import tlc2.util.FP64;
import tlc2.value.IMVPerm;
import tlc2.value.IValue;
import tlc2.value.IValueOutputStream;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnLambdaValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import tlc2.value.impl.ValueExcept;

/** A real number of module Num, held to MC decimal digits; or one of NaN, +Inf, -Inf. */
public final class NumValue extends Value {
    public static final MathContext MC = new MathContext(45, RoundingMode.HALF_EVEN);
    public static final String PREFIX = "#num:";

    public final BigDecimal v; // null for a special
    public final double sp;    // the special, when v is null

    public static final NumValue NAN = new NumValue(Double.NaN);
    public static final NumValue PINF = new NumValue(Double.POSITIVE_INFINITY);
    public static final NumValue NINF = new NumValue(Double.NEGATIVE_INFINITY);
    public static final NumValue ZERO = new NumValue(BigDecimal.ZERO);
    public static final NumValue ONE = new NumValue(BigDecimal.ONE);

    public NumValue(BigDecimal v) { this.v = v.round(MC); this.sp = 0; }
    private NumValue(double sp) { this.v = null; this.sp = sp; }

    public boolean special() { return v == null; }

    public double approx() { return v == null ? sp : v.doubleValue(); }

    public static NumValue parse(String s) {
        if (s.startsWith(PREFIX)) { s = s.substring(PREFIX.length()); }
        s = s.trim();
        switch (s.toLowerCase()) {
            case "nan": return NAN;
            case "inf": case "+inf": case "infinity": return PINF;
            case "-inf": case "-infinity": return NINF;
            default:
        }
        if (s.indexOf('/') > 0) {
            String[] p = s.split("/");
            return Nums.div(parse(p[0]), parse(p[1]));
        }
        return new NumValue(new BigDecimal(s));
    }

    public static NumValue of(Value x) {
        if (x instanceof NumValue) { return (NumValue) x; }
        if (x instanceof IntValue) { return new NumValue(new BigDecimal(((IntValue) x).val)); }
        if (x instanceof StringValue) { return parse(((StringValue) x).val.toString()); }
        throw new RuntimeException("not a number of module Num: " + x);
    }

    public String str(int digits) {
        if (v == null) { return Double.isNaN(sp) ? "nan" : (sp > 0 ? "inf" : "-inf"); }
        if (v.signum() == 0) { return "0"; }
        BigDecimal r = v.round(new MathContext(digits, RoundingMode.HALF_EVEN)).stripTrailingZeros();
        return r.toString();
    }

    @Override public byte getKind() { return REALVALUE; }

    @Override public int compareTo(Object o) {
        NumValue b;
        if (o instanceof NumValue) { b = (NumValue) o; }
        else if (o instanceof IntValue || o instanceof StringValue) { b = of((Value) o); }
        else { throw new RuntimeException("comparing a number with " + o); }
        if (v == null || b.v == null) { return Double.compare(approx(), b.approx()); }
        return v.compareTo(b.v);
    }

    @Override public boolean equals(Object o) { return compareTo(o) == 0; }
    @Override public boolean member(Value x) { throw new RuntimeException("\\in a number"); }
    @Override public boolean isFinite() { return true; }
    @Override public Value takeExcept(ValueExcept ex) { throw new RuntimeException("EXCEPT on a number"); }
    @Override public Value takeExcept(ValueExcept[] ex) { throw new RuntimeException("EXCEPT on a number"); }
    @Override public int size() { throw new RuntimeException("size of a number"); }
    @Override public boolean isNormalized() { return true; }
    @Override public Value normalize() { return this; }
    @Override public boolean isDefined() { return true; }
    @Override public IValue deepCopy() { return this; }
    @Override public boolean mutates() { return false; }
    @Override public IValue permute(IMVPerm p) { return this; }
    @Override public long fingerPrint(long fp) {
        // 30 digits: fingerprints must not depend on how a value was reached
        return FP64.Extend(FP64.Extend(fp, REALVALUE), str(30));
    }
    @Override public void write(IValueOutputStream vos) throws IOException {
        new StringValue(PREFIX + str(45)).write(vos);
    }
    @Override public StringBuffer toString(StringBuffer sb, int offset, boolean swallow) {
        return sb.append('"').append(str(20)).append('"');
    }
}
