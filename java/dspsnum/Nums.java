package dspsnum;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.HashMap;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnLambdaValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

/** TLC's evaluation of the operators that module Num defines over the reals. */
public final class Nums implements ITLCOverrides {
    @Override public Class[] get() { return new Class[] { Nums.class }; }

    static final MathContext MC = NumValue.MC;
    static final int FB = 200;                       // fixed-point fraction bits
    static final BigInteger FONE = BigInteger.ONE.shiftLeft(FB);
    static final BigDecimal FSCALE = new BigDecimal(FONE);
    static final MathContext WIDE = new MathContext(64, RoundingMode.HALF_EVEN);
    static final BigDecimal LN10 = new BigDecimal(
        "2.302585092994045684017991454684364207601101488628772976033327900967572609677352480236");
    static final BigDecimal LN10X = LN10.round(new MathContext(75));

    static NumValue n(Value x) { return NumValue.of(x); }
    static NumValue mk(BigDecimal b) { return new NumValue(b); }

    // ---- arithmetic -------------------------------------------------------
    static NumValue add(NumValue a, NumValue b) {
        if (a.v == null || b.v == null) { return special(a.approx() + b.approx()); }
        return mk(a.v.add(b.v, MC));
    }
    static NumValue special(double d) {
        if (Double.isNaN(d)) { return NumValue.NAN; }
        if (Double.isInfinite(d)) { return d > 0 ? NumValue.PINF : NumValue.NINF; }
        return mk(new BigDecimal(d));
    }
    static NumValue sub(NumValue a, NumValue b) {
        if (a.v == null || b.v == null) { return special(a.approx() - b.approx()); }
        return mk(a.v.subtract(b.v, MC));
    }
    static NumValue mul(NumValue a, NumValue b) {
        if (a.v == null || b.v == null) { return special(a.approx() * b.approx()); }
        return mk(a.v.multiply(b.v, MC));
    }
    static NumValue div(NumValue a, NumValue b) {
        if (a.v == null || b.v == null) { return special(a.approx() / b.approx()); }
        if (b.v.signum() == 0) { return NumValue.NAN; }
        return mk(a.v.divide(b.v, MC));
    }

    // ---- transcendental functions ----------------------------------------
    private static final HashMap<BigDecimal, BigDecimal> EXPC = new HashMap<>();
    private static final HashMap<BigDecimal, BigDecimal> LNC = new HashMap<>();
    private static final int CMAX = 400000;

    static BigInteger fx(BigDecimal x) { return x.multiply(FSCALE).toBigInteger(); }
    static BigDecimal unfx(BigInteger x) { return new BigDecimal(x).divide(FSCALE, WIDE); }

    /** exp of a fixed-point number in [-3, 3], as fixed point */
    static BigInteger expFx(BigInteger r) {
        final int sq = 12;
        BigInteger y = r.shiftRight(sq);
        BigInteger term = FONE, sum = FONE;
        for (int i = 1; i < 60; i++) {
            term = term.multiply(y).shiftRight(FB).divide(BigInteger.valueOf(i));
            if (term.signum() == 0 || term.equals(BigInteger.ONE.negate())) { break; }
            sum = sum.add(term);
        }
        for (int i = 0; i < sq; i++) { sum = sum.multiply(sum).shiftRight(FB); }
        return sum;
    }

    static BigDecimal expRaw(BigDecimal x) {
        BigDecimal kd = x.divide(LN10X, 0, RoundingMode.HALF_EVEN);
        int k = kd.intValueExact();
        BigDecimal r = x.subtract(kd.multiply(LN10X));
        BigDecimal e = unfx(expFx(fx(r)));
        return e.scaleByPowerOfTen(k).round(MC);
    }

    static synchronized BigDecimal exp(BigDecimal x) {
        BigDecimal c = EXPC.get(x);
        if (c != null) { return c; }
        BigDecimal e = expRaw(x);
        if (EXPC.size() > CMAX) { EXPC.clear(); }
        EXPC.put(x, e);
        return e;
    }

    static synchronized BigDecimal ln(BigDecimal x) { // x > 0
        BigDecimal c = LNC.get(x);
        if (c != null) { return c; }
        int k = x.precision() - x.scale() - 1;
        BigDecimal m = x.scaleByPowerOfTen(-k);          // [1, 10)
        double y0 = Math.log(m.doubleValue());
        BigDecimal y = new BigDecimal(y0);
        BigInteger mf = fx(m);
        BigInteger yf = fx(y);
        for (int i = 0; i < 2; i++) {
            BigInteger e = expFx(yf);
            BigInteger d = mf.subtract(e).shiftLeft(FB + 1).divide(mf.add(e));
            yf = yf.add(d);
        }
        BigDecimal res = unfx(yf).add(LN10X.multiply(new BigDecimal(k))).round(MC);
        if (LNC.size() > CMAX) { LNC.clear(); }
        LNC.put(x, res);
        return res;
    }

    static NumValue exp(NumValue a) {
        if (a.v == null) { return special(Math.exp(a.sp)); }
        if (a.v.compareTo(new BigDecimal("1e9")) > 0) { return NumValue.PINF; }
        if (a.v.compareTo(new BigDecimal("-1e9")) < 0) { return NumValue.ZERO; }
        return mk(exp(a.v));
    }
    static NumValue ln(NumValue a) {
        if (a.v == null) { return special(Math.log(a.sp)); }
        if (a.v.signum() < 0) { return NumValue.NAN; }
        if (a.v.signum() == 0) { return NumValue.NINF; }
        return mk(ln(a.v));
    }
    static NumValue sqrt(NumValue a) {
        if (a.v == null) { return special(Math.sqrt(a.sp)); }
        if (a.v.signum() < 0) { return NumValue.NAN; }
        return mk(a.v.sqrt(MC));
    }
    static NumValue pow(NumValue a, NumValue b) {
        if (a.v == null || b.v == null) { return special(Math.pow(a.approx(), b.approx())); }
        if (b.v.stripTrailingZeros().scale() <= 0 && b.v.abs().compareTo(new BigDecimal(64)) <= 0) {
            int k = b.v.intValueExact();
            if (k >= 0) { return mk(a.v.pow(k, MC)); }
            if (a.v.signum() == 0) { return NumValue.NAN; }
            return mk(BigDecimal.ONE.divide(a.v.pow(-k, MC), MC));
        }
        if (a.v.signum() < 0) { return NumValue.NAN; }
        if (a.v.signum() == 0) { return b.v.signum() > 0 ? NumValue.ZERO : NumValue.NAN; }
        return exp(mk(b.v.multiply(ln(a.v), MC)));
    }

    // ---- operators of module Num ------------------------------------------
    @TLAPlusOperator(identifier = "N", module = "Num", warn = false)
    public static Value num(final Value x) { return n(x); }

    @TLAPlusOperator(identifier = "NAdd", module = "Num", warn = false)
    public static Value nadd(final Value a, final Value b) { return add(n(a), n(b)); }
    @TLAPlusOperator(identifier = "NSub", module = "Num", warn = false)
    public static Value nsub(final Value a, final Value b) { return sub(n(a), n(b)); }
    @TLAPlusOperator(identifier = "NMul", module = "Num", warn = false)
    public static Value nmul(final Value a, final Value b) { return mul(n(a), n(b)); }
    @TLAPlusOperator(identifier = "NDiv", module = "Num", warn = false)
    public static Value ndiv(final Value a, final Value b) { return div(n(a), n(b)); }
    @TLAPlusOperator(identifier = "NLt", module = "Num", warn = false)
    public static Value nlt(final Value a, final Value b) { return cmp(n(a), n(b), -1, -1); }
    @TLAPlusOperator(identifier = "NLe", module = "Num", warn = false)
    public static Value nle(final Value a, final Value b) { return cmp(n(a), n(b), -1, 0); }
    @TLAPlusOperator(identifier = "NEq", module = "Num", warn = false)
    public static Value neq(final Value a, final Value b) { return cmp(n(a), n(b), 0, 0); }

    private static Value cmp(NumValue a, NumValue b, int lo, int hi) {
        if (a.v == null || b.v == null) {
            double x = a.approx(), y = b.approx();
            if (Double.isNaN(x) || Double.isNaN(y)) { return BoolValue.ValFalse; }
            int c = Double.compare(x, y);
            c = Integer.signum(c);
            return (c >= lo && c <= hi) ? BoolValue.ValTrue : BoolValue.ValFalse;
        }
        int c = Integer.signum(a.v.compareTo(b.v));
        return (c >= lo && c <= hi) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "NIsFin", module = "Num", warn = false)
    public static Value nisfin(final Value a) { return n(a).v != null ? BoolValue.ValTrue : BoolValue.ValFalse; }
    @TLAPlusOperator(identifier = "NIsNaN", module = "Num", warn = false)
    public static Value nisnan(final Value a) {
        NumValue x = n(a);
        return x.v == null && Double.isNaN(x.sp) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    @TLAPlusOperator(identifier = "NNeg", module = "Num", warn = false)
    public static Value nneg(final Value a) { return sub(NumValue.ZERO, n(a)); }
    @TLAPlusOperator(identifier = "NAbs", module = "Num", warn = false)
    public static Value nabs(final Value a) {
        NumValue x = n(a);
        return x.v == null ? special(Math.abs(x.sp)) : mk(x.v.abs());
    }
    @TLAPlusOperator(identifier = "NExp", module = "Num", warn = false)
    public static Value nexp(final Value a) { return exp(n(a)); }
    @TLAPlusOperator(identifier = "NLn", module = "Num", warn = false)
    public static Value nln(final Value a) { return ln(n(a)); }
    @TLAPlusOperator(identifier = "NLog10", module = "Num", warn = false)
    public static Value nlog10(final Value a) {
        NumValue l = ln(n(a));
        return l.v == null ? l : mk(l.v.divide(LN10, MC));
    }
    @TLAPlusOperator(identifier = "NPow10", module = "Num", warn = false)
    public static Value npow10(final Value a) {
        NumValue x = n(a);
        if (x.v == null) { return special(Math.pow(10, x.sp)); }
        return exp(new NumValue(x.v.multiply(LN10X, new MathContext(60))));
    }
    @TLAPlusOperator(identifier = "NPow", module = "Num", warn = false)
    public static Value npow(final Value a, final Value b) { return pow(n(a), n(b)); }
    @TLAPlusOperator(identifier = "NSqrt", module = "Num", warn = false)
    public static Value nsqrt(final Value a) { return sqrt(n(a)); }
    @TLAPlusOperator(identifier = "NStr", module = "Num", warn = false)
    public static Value nstr(final Value a) { return new StringValue(n(a).str(17)); }
    @TLAPlusOperator(identifier = "NFloor", module = "Num", warn = false)
    public static Value nfloor(final Value a) {
        return IntValue.gen(n(a).v.setScale(0, RoundingMode.FLOOR).intValueExact());
    }

    private static Value[] elems(Value s) {
        Value t = s.toTuple();
        if (t == null) { throw new RuntimeException("expected a sequence: " + s); }
        return ((TupleValue) t).elems;
    }

    /** A string is read as a number, every sequence element by element. */
    @TLAPlusOperator(identifier = "NDeep", module = "Num", warn = false)
    public static Value ndeep(final Value x) {
        if (x instanceof StringValue || x instanceof IntValue) { return n(x); }
        if (x instanceof NumValue) { return x; }
        // TLC asks for the same recorded array over and over: values do not change, so keep the last ones
        boolean keep = x instanceof TupleValue && ((TupleValue) x).elems.length > 1;
        if (keep) {
            synchronized (SEEN) {
                Value old = SEEN.get(x);
                if (old != null) { return old; }
            }
        }
        Value[] e = elems(x);
        Value[] r = new Value[e.length];
        for (int i = 0; i < e.length; i++) { r[i] = ndeep(e[i]); }
        Value res = new TupleValue(r);
        if (keep) {
            synchronized (SEEN) {
                seenSize += e.length;
                if (seenSize > 300000) { SEEN.clear(); seenSize = e.length; }
                SEEN.put(x, res);
            }
        }
        return res;
    }
    private static final java.util.IdentityHashMap<Value, Value> SEEN = new java.util.IdentityHashMap<>();
    private static long seenSize = 0;

    @TLAPlusOperator(identifier = "VSum", module = "Num", warn = false)
    public static Value vsum(final Value s) {
        NumValue acc = NumValue.ZERO;
        for (Value e : elems(s)) { acc = add(acc, n(e)); }
        return acc;
    }
    /** NMax(s[1], MaxOf(Tail(s))): a comparison with nan is FALSE and leaves the left operand */
    @TLAPlusOperator(identifier = "MaxOf", module = "Vec", warn = false)
    public static Value maxof(final Value s) { return extreme(s, true); }
    @TLAPlusOperator(identifier = "MinOf", module = "Vec", warn = false)
    public static Value minof(final Value s) { return extreme(s, false); }
    static NumValue extreme(Value s, boolean max) {
        Value[] a = elems(s);
        NumValue r = n(a[a.length - 1]);
        for (int i = a.length - 2; i >= 0; i--) {
            NumValue e = n(a[i]);
            boolean le = cmp(e, r, -1, 0) == BoolValue.ValTrue;
            r = le == max ? r : e;
        }
        return r;
    }
    @TLAPlusOperator(identifier = "RunSum", module = "Vec", warn = false)
    public static Value runsum(final Value s) {
        Value[] a = elems(s);
        Value[] r = new Value[a.length];
        NumValue acc = NumValue.ZERO;
        for (int i = 0; i < a.length; i++) { acc = add(acc, n(a[i])); r[i] = acc; }
        return new TupleValue(r);
    }
    @TLAPlusOperator(identifier = "VDot", module = "Num", warn = false)
    public static Value vdot(final Value s, final Value t) {
        Value[] a = elems(s), b = elems(t);
        if (a.length != b.length) { return NumValue.NAN; }
        NumValue acc = NumValue.ZERO;
        for (int i = 0; i < a.length; i++) { acc = add(acc, mul(n(a[i]), n(b[i]))); }
        return acc;
    }
    @TLAPlusOperator(identifier = "VTrapz", module = "Num", warn = false)
    public static Value vtrapz(final Value xs, final Value ys) {
        Value[] x = elems(xs), y = elems(ys);
        if (x.length != y.length) { return NumValue.NAN; }
        NumValue acc = NumValue.ZERO;
        NumValue half = new NumValue(new BigDecimal("0.5"));
        for (int i = 1; i < x.length; i++) {
            acc = add(acc, mul(mul(half, sub(n(x[i]), n(x[i - 1]))), add(n(y[i]), n(y[i - 1]))));
        }
        return acc;
    }

    /** number of leading entries of the non-decreasing sequence s that are <= x */
    @TLAPlusOperator(identifier = "VSearch", module = "Num", warn = false)
    public static Value vsearch(final Value s, final Value x) {
        Value[] a = elems(s);
        NumValue xv = n(x);
        int lo = 0, hi = a.length;
        while (lo < hi) {
            int mid = (lo + hi) >>> 1;
            if (cmp(n(a[mid]), xv, -1, 0) == BoolValue.ValTrue) { lo = mid + 1; } else { hi = mid; }
        }
        return IntValue.gen(lo);
    }
}
