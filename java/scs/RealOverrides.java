package scs;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.RoundingMode;
import java.util.concurrent.ConcurrentHashMap;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.FcnRcdValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * TLC's integers are 32 bits wide; module FixReal.tla is written with TLA+'s unbounded integers.
 * This class evaluates exactly those definitions with BigInteger. A number k (meaning k / 2^128) is
 * the TLC tuple <<sign, limb0, limb1, ...>> with 30-bit limbs, least significant first, no leading
 * zero limb, sign in {-1, 0, 1}: one value, one representation, so TLC's equality is equality.
 */
public class RealOverrides implements ITLCOverrides {
    static final int FRAC = 128;
    static final BigInteger ONE = BigInteger.ONE.shiftLeft(FRAC);
    static final int LIMB = 30;
    static final int MASK = (1 << LIMB) - 1;

    /** A tuple that remembers the number it stands for. */
    static final class Num extends TupleValue {
        private static final long serialVersionUID = 1L;
        transient final BigInteger k;

        Num(BigInteger k) {
            super(encode(k));
            this.k = k;
        }
    }

    static Value[] encode(BigInteger k) {
        final int sign = k.signum();
        BigInteger a = k.abs();
        final int n = (a.bitLength() + LIMB - 1) / LIMB;
        final Value[] out = new Value[n + 1];
        out[0] = IntValue.gen(sign);
        for (int i = 0; i < n; ++i) {
            out[i + 1] = IntValue.gen(a.intValue() & MASK);
            a = a.shiftRight(LIMB);
        }
        return out;
    }

    static BigInteger dec(Value v) {
        if (v instanceof Num && ((Num) v).k != null) return ((Num) v).k;
        final TupleValue t = (TupleValue) v.toTuple();
        if (t == null) throw new RuntimeException("not a FixReal: " + v);
        BigInteger a = BigInteger.ZERO;
        for (int i = t.elems.length - 1; i >= 1; --i) {
            a = a.shiftLeft(LIMB).or(BigInteger.valueOf(((IntValue) t.elems[i]).val));
        }
        return ((IntValue) t.elems[0]).val < 0 ? a.negate() : a;
    }

    static Value enc(BigInteger k) {
        return new Num(k);
    }

    /** Floor division by 2^128 (rounds toward minus infinity), as \div does in TLA+. */
    static BigInteger mul(BigInteger a, BigInteger b) {
        return a.multiply(b).shiftRight(FRAC);
    }

    static BigInteger floorDiv(BigInteger a, BigInteger b) {
        final BigInteger[] qr = a.divideAndRemainder(b);
        return (qr[1].signum() != 0 && (qr[1].signum() != b.signum()))
            ? qr[0].subtract(BigInteger.ONE) : qr[0];
    }

    @TLAPlusOperator(identifier = "RInt", module = "FixReal", warn = false)
    public static Value rInt(final IntValue n) {
        return enc(BigInteger.valueOf(n.val).shiftLeft(FRAC));
    }

    @TLAPlusOperator(identifier = "RAdd", module = "FixReal", warn = false)
    public static Value rAdd(final Value a, final Value b) {
        return enc(dec(a).add(dec(b)));
    }

    @TLAPlusOperator(identifier = "RSub", module = "FixReal", warn = false)
    public static Value rSub(final Value a, final Value b) {
        return enc(dec(a).subtract(dec(b)));
    }

    @TLAPlusOperator(identifier = "RNeg", module = "FixReal", warn = false)
    public static Value rNeg(final Value a) {
        return enc(dec(a).negate());
    }

    @TLAPlusOperator(identifier = "RAbs", module = "FixReal", warn = false)
    public static Value rAbs(final Value a) {
        return enc(dec(a).abs());
    }

    @TLAPlusOperator(identifier = "RMul", module = "FixReal", warn = false)
    public static Value rMul(final Value a, final Value b) {
        return enc(mul(dec(a), dec(b)));
    }

    @TLAPlusOperator(identifier = "RDiv", module = "FixReal", warn = false)
    public static Value rDiv(final Value a, final Value b) {
        return enc(floorDiv(dec(a).shiftLeft(FRAC), dec(b)));
    }

    @TLAPlusOperator(identifier = "RLe", module = "FixReal", warn = false)
    public static Value rLe(final Value a, final Value b) {
        return dec(a).compareTo(dec(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "RLt", module = "FixReal", warn = false)
    public static Value rLt(final Value a, final Value b) {
        return dec(a).compareTo(dec(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "RSqrt", module = "FixReal", warn = false)
    public static Value rSqrt(final Value a) {
        return enc(dec(a).shiftLeft(FRAC).sqrt());
    }

    /** Sum over i of a[i] * b[i]. */
    @TLAPlusOperator(identifier = "RDot", module = "FixReal", warn = false)
    public static Value rDot(final Value a, final Value b) {
        final TupleValue x = (TupleValue) a.toTuple(), y = (TupleValue) b.toTuple();
        BigInteger s = BigInteger.ZERO;
        for (int i = 0; i < x.elems.length; ++i) {
            s = s.add(mul(dec(x.elems[i]), dec(y.elems[i])));
        }
        return enc(s);
    }

    /** Sum over i of |a[i] * b[i]|. */
    @TLAPlusOperator(identifier = "RAbsDot", module = "FixReal", warn = false)
    public static Value rAbsDot(final Value a, final Value b) {
        final TupleValue x = (TupleValue) a.toTuple(), y = (TupleValue) b.toTuple();
        BigInteger s = BigInteger.ZERO;
        for (int i = 0; i < x.elems.length; ++i) {
            s = s.add(mul(dec(x.elems[i]), dec(y.elems[i])).abs());
        }
        return enc(s);
    }

    @TLAPlusOperator(identifier = "RSum", module = "FixReal", warn = false)
    public static Value rSum(final Value a) {
        final TupleValue x = (TupleValue) a.toTuple();
        BigInteger s = BigInteger.ZERO;
        for (int i = 0; i < x.elems.length; ++i) s = s.add(dec(x.elems[i]));
        return enc(s);
    }

    // ---- folds over functions and recorded values ---------------------------

    static Value[] values(final Value f) {
        if (f instanceof TupleValue) return ((TupleValue) f).elems;
        if (f instanceof RecordValue) return ((RecordValue) f).values;
        final Value t = f.toFcnRcd();
        if (t == null) throw new RuntimeException("not a function: " + f);
        return ((FcnRcdValue) t).values;
    }

    @TLAPlusOperator(identifier = "RSumF", module = "FixReal", warn = false)
    public static Value rSumF(final Value f) {
        BigInteger s = BigInteger.ZERO;
        for (Value v : values(f)) s = s.add(dec(v));
        return enc(s);
    }

    @TLAPlusOperator(identifier = "RMaxF", module = "FixReal", warn = false)
    public static Value rMaxF(final Value f) {
        BigInteger s = BigInteger.ZERO;
        for (Value v : values(f)) s = s.max(dec(v));
        return enc(s);
    }

    static String text(final Value v) {
        return ((StringValue) v).val.toString();
    }

    static final BigInteger HUGE = BigInteger.ONE.shiftLeft(1200 + FRAC);

    @TLAPlusOperator(identifier = "RRead", module = "FixReal", warn = false)
    public static Value rRead(final Value v) {
        if (v instanceof IntValue) return rInt((IntValue) v);
        final String s = text(v);
        if (s.equals("inf")) return enc(HUGE);
        if (s.equals("-inf")) return enc(HUGE.negate());
        if (s.equals("nan")) return enc(HUGE.shiftLeft(200));
        return rParse((StringValue) v);
    }

    @TLAPlusOperator(identifier = "RReadSeq", module = "FixReal", warn = false)
    public static Value rReadSeq(final Value v) {
        final Value[] in = ((TupleValue) v.toTuple()).elems;
        final Value[] out = new Value[in.length];
        for (int i = 0; i < in.length; ++i) out[i] = rRead(in[i]);
        return new TupleValue(out);
    }

    static boolean fin(final Value v) {
        if (v instanceof StringValue) {
            final String s = text(v);
            return !(s.equals("nan") || s.equals("inf") || s.equals("-inf"));
        }
        if (v instanceof IntValue || v instanceof BoolValue) return true;
        for (Value x : values(v)) if (!fin(x)) return false;
        return true;
    }

    @TLAPlusOperator(identifier = "RAllFinite", module = "FixReal", warn = false)
    public static Value rAllFinite(final Value v) {
        return fin(v) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    // ---- text <-> number -------------------------------------------------

    static final ConcurrentHashMap<String, Value> PARSED = new ConcurrentHashMap<>();

    static boolean finite(String s) {
        return !(s.contains("n") || s.contains("N"));     // nan, inf, -inf
    }

    static BigInteger parse(String s) {
        if (!finite(s)) throw new RuntimeException("RParse of a non-finite number: " + s);
        final int slash = s.indexOf('/');
        if (slash >= 0) {
            return floorDiv(parse(s.substring(0, slash)).shiftLeft(FRAC), parse(s.substring(slash + 1)));
        }
        final BigDecimal d = (s.contains("x") || s.contains("X"))
            ? new BigDecimal(Double.parseDouble(s)) : new BigDecimal(s);
        return d.multiply(new BigDecimal(ONE)).setScale(0, RoundingMode.FLOOR).unscaledValue();
    }

    @TLAPlusOperator(identifier = "RParse", module = "FixReal", warn = false)
    public static Value rParse(final StringValue s) {
        final String key = s.val.toString();
        Value v = PARSED.get(key);
        if (v == null) {
            v = enc(parse(key));
            if (PARSED.size() > 2000000) PARSED.clear();
            PARSED.put(key, v);
        }
        return v;
    }

    @TLAPlusOperator(identifier = "RFinite", module = "FixReal", warn = false)
    public static Value rFinite(final StringValue s) {
        return finite(s.val.toString()) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    static String show(BigInteger k) {
        final BigDecimal d = new BigDecimal(k).divide(new BigDecimal(ONE));
        return d.round(new java.math.MathContext(25)).stripTrailingZeros().toString();
    }

    @TLAPlusOperator(identifier = "RShow", module = "FixReal", warn = false)
    public static Value rShow(final Value a) {
        return new StringValue(show(dec(a)));
    }

    // ---- trigonometry ----------------------------------------------------

    static final int WORK = 320;                      // fractional bits while computing
    static final BigInteger WONE = BigInteger.ONE.shiftLeft(WORK);
    static final BigInteger PI2;                      // pi / 2 with WORK bits

    static BigInteger atanInv(int n) {
        BigInteger t = WONE.divide(BigInteger.valueOf(n)), s = t;
        final BigInteger n2 = BigInteger.valueOf((long) n * n);
        for (int i = 1; t.signum() != 0; ++i) {
            t = t.divide(n2);
            final BigInteger u = t.divide(BigInteger.valueOf(2L * i + 1));
            s = (i % 2 == 1) ? s.subtract(u) : s.add(u);
        }
        return s;
    }

    static {
        final BigInteger pi4 = atanInv(5).shiftLeft(2).subtract(atanInv(239));
        PI2 = pi4.shiftLeft(1);
    }

    static final ConcurrentHashMap<BigInteger, BigInteger[]> TRIG = new ConcurrentHashMap<>();

    /** {cos, sin} of k / 2^128, each scaled by 2^128. */
    static BigInteger[] trig(BigInteger k) {
        BigInteger[] r = TRIG.get(k);
        if (r != null) return r;
        final BigInteger x = k.shiftLeft(WORK - FRAC);
        final BigInteger q = floorDiv(x.shiftLeft(1).add(PI2), PI2.shiftLeft(1));
        final BigInteger y = x.subtract(q.multiply(PI2));     // |y| <= pi/4
        BigInteger c = WONE, s = y, tc = WONE, ts = y;
        final BigInteger y2 = y.multiply(y).shiftRight(WORK);
        for (int i = 1; i < 60; ++i) {
            tc = tc.multiply(y2).shiftRight(WORK).divide(BigInteger.valueOf((2L * i - 1) * (2L * i))).negate();
            ts = ts.multiply(y2).shiftRight(WORK).divide(BigInteger.valueOf((2L * i) * (2L * i + 1))).negate();
            c = c.add(tc);
            s = s.add(ts);
        }
        final int quad = q.mod(BigInteger.valueOf(4)).intValue();
        BigInteger cc, ss;
        switch (quad) {
            case 0: cc = c; ss = s; break;
            case 1: cc = s.negate(); ss = c; break;
            case 2: cc = c.negate(); ss = s.negate(); break;
            default: cc = s; ss = c.negate(); break;
        }
        r = new BigInteger[] {cc.shiftRight(WORK - FRAC), ss.shiftRight(WORK - FRAC)};
        if (TRIG.size() > 500000) TRIG.clear();
        TRIG.put(k, r);
        return r;
    }

    @TLAPlusOperator(identifier = "RCos", module = "FixReal", warn = false)
    public static Value rCos(final Value a) {
        return enc(trig(dec(a))[0]);
    }

    @TLAPlusOperator(identifier = "RSin", module = "FixReal", warn = false)
    public static Value rSin(final Value a) {
        return enc(trig(dec(a))[1]);
    }

    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] {RealOverrides.class};
    }
}
