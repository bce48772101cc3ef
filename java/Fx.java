import java.math.BigDecimal;
import java.math.BigInteger;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** TLC overrides of the operators of module Fx (see spec/Fx.tla).
 *
 * Each method computes the value the TLA+ definition of the same name
 * denotes; spec/FxCheck.tla compares the two on boundary and random values.
 */
public final class Fx {
    private static final int BITS = 15, BASE = 1 << BITS, MASK = BASE - 1, FRAC = 5;
    private static final IntValue[] LIMB = new IntValue[BASE];
    static { for (int i = 0; i < BASE; i++) LIMB[i] = IntValue.gen(i); }
    private static final IntValue PLUS = IntValue.gen(1), MINUS = IntValue.gen(-1);
    private static final TupleValue ZERO = new TupleValue(new Value[] { IntValue.gen(0) });
    private static final TupleValue TINY = new TupleValue(new Value[] { PLUS, LIMB[1] });
    private static final int[] NIL = new int[0];

    private static Value[] el(Value v) {
        if (v instanceof TupleValue) return ((TupleValue)v).elems;
        return ((TupleValue)v.toTuple()).elems;
    }
    private static final TupleValue NAN = new TupleValue(new Value[] { IntValue.gen(2) });
    private static int sg(Value[] e) { return ((IntValue)e[0]).val; }
    private static boolean bad(Value[] e) { int s = sg(e); return s < -1 || s > 1; }
    private static int[] mag(Value[] e) {
        int[] m = new int[e.length - 1];
        for (int i = 0; i < m.length; i++) m[i] = ((IntValue)e[i + 1]).val;
        return m;
    }
    private static TupleValue mk(int s, int[] m) {
        int n = m.length;
        while (n > 0 && m[n - 1] == 0) n--;
        if (n == 0 || s == 0) return ZERO;
        Value[] v = new Value[n + 1];
        v[0] = s > 0 ? PLUS : MINUS;
        for (int i = 0; i < n; i++) v[i + 1] = LIMB[m[i]];
        return new TupleValue(v);
    }
    private static int[] add(int[] a, int[] b) {
        if (a.length < b.length) { int[] t = a; a = b; b = t; }
        int[] r = new int[a.length + 1];
        int c = 0;
        for (int i = 0; i < a.length; i++) {
            int t = a[i] + (i < b.length ? b[i] : 0) + c;
            r[i] = t & MASK; c = t >> BITS;
        }
        r[a.length] = c;
        return r;
    }
    private static int[] sub(int[] a, int[] b) {
        int[] r = new int[a.length];
        int c = 0;
        for (int i = 0; i < a.length; i++) {
            int t = a[i] - (i < b.length ? b[i] : 0) - c;
            if (t < 0) { t += BASE; c = 1; } else c = 0;
            r[i] = t;
        }
        return r;
    }
    private static int cmp(int[] a, int[] b) {
        if (a.length != b.length) return a.length < b.length ? -1 : 1;
        for (int i = a.length - 1; i >= 0; i--)
            if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
        return 0;
    }
    private static int[] mul(int[] a, int[] b) {
        if (a.length == 0 || b.length == 0) return NIL;
        int[] r = new int[a.length + b.length];
        for (int i = 0; i < a.length; i++) {
            long c = 0; long ai = a[i];
            for (int j = 0; j < b.length; j++) {
                long t = r[i + j] + ai*b[j] + c;
                r[i + j] = (int)(t & MASK); c = t >> BITS;
            }
            r[i + b.length] = (int)c;
        }
        return r;
    }
    private static int[] down(int[] m, int k) {
        if (m.length <= k) return NIL;
        int[] r = new int[m.length - k];
        System.arraycopy(m, k, r, 0, r.length);
        return r;
    }
    private static int[] up(int[] m, int k) {
        if (m.length == 0) return m;
        int[] r = new int[m.length + k];
        System.arraycopy(m, 0, r, k, m.length);
        return r;
    }
    private static int[] intMag(long n) {
        int k = 0; for (long t = n; t != 0; t >>= BITS) k++;
        int[] r = new int[k];
        for (int i = 0; i < k; i++) { r[i] = (int)(n & MASK); n >>= BITS; }
        return r;
    }
    private static BigInteger big(int[] m) {
        BigInteger r = BigInteger.ZERO;
        for (int i = m.length - 1; i >= 0; i--) r = r.shiftLeft(BITS).or(BigInteger.valueOf(m[i]));
        return r;
    }
    private static int[] unbig(BigInteger x) {
        int n = (x.bitLength() + BITS - 1)/BITS;
        int[] r = new int[n];
        for (int i = 0; i < n; i++) { r[i] = x.intValue() & MASK; x = x.shiftRight(BITS); }
        return r;
    }
    private static TupleValue sum(int sx, int[] x, int sy, int[] y) {
        if (sx == 0) return mk(sy, y);
        if (sy == 0) return mk(sx, x);
        if (sx == sy) return mk(sx, add(x, y));
        int c = cmp(x, y);
        if (c == 0) return ZERO;
        return c > 0 ? mk(sx, sub(x, y)) : mk(sy, sub(y, x));
    }
    private static int compare(Value x, Value y) {
        Value[] a = el(x), b = el(y);
        if (bad(a) || bad(b)) return 2;
        int sa = sg(a), sb = sg(b);
        if (sa != sb) return sa < sb ? -1 : 1;
        if (sa == 0) return 0;
        return sa*cmp(mag(a), mag(b));
    }

    public static Value FxNeg(Value x) {
        Value[] e = el(x), r = e.clone();
        if (sg(e) == 2) return x;
        r[0] = IntValue.gen(-((IntValue)e[0]).val);
        return new TupleValue(r);
    }
    public static Value FxAbs(Value x) { return ((IntValue)el(x)[0]).val < 0 ? FxNeg(x) : x; }
    public static Value FxInt(Value n) {
        long v = ((IntValue)n).val;
        return mk(Long.signum(v), up(intMag(Math.abs(v)), FRAC));
    }
    public static Value FxAdd(Value x, Value y) {
        Value[] a = el(x), b = el(y);
        if (bad(a) || bad(b)) return NAN;
        return sum(sg(a), mag(a), sg(b), mag(b));
    }
    public static Value FxSub(Value x, Value y) {
        Value[] a = el(x), b = el(y);
        if (bad(a) || bad(b)) return NAN;
        return sum(sg(a), mag(a), -sg(b), mag(b));
    }
    public static Value FxMul(Value x, Value y) {
        Value[] a = el(x), b = el(y);
        if (bad(a) || bad(b)) return NAN;
        return mk(sg(a)*sg(b), down(mul(mag(a), mag(b)), FRAC));
    }
    public static Value FxMulInt(Value x, Value n) {
        Value[] a = el(x);
        if (bad(a)) return NAN;
        long v = ((IntValue)n).val;
        return mk(sg(a)*Long.signum(v), mul(mag(a), intMag(Math.abs(v))));
    }
    public static Value FxDiv(Value x, Value y) {
        Value[] a = el(x), b = el(y);
        if (bad(a) || bad(b) || sg(b) == 0) return NAN;
        return mk(sg(a)*sg(b), unbig(big(mag(a)).shiftLeft(BITS*FRAC).divide(big(mag(b)))));
    }
    public static Value FxDivInt(Value x, Value n) {
        Value[] a = el(x);
        if (bad(a)) return NAN;
        long v = ((IntValue)n).val;
        int[] m = mag(a);
        if (v == 0) return NAN;
        long d = Math.abs(v), rem = 0;
        int[] q = new int[m.length];
        for (int i = m.length - 1; i >= 0; i--) {
            long t = (rem << BITS) | m[i];
            q[i] = (int)(t/d); rem = t % d;
        }
        return mk(sg(a)*Long.signum(v), q);
    }
    public static Value FxSqrt(Value x) {
        Value[] a = el(x);
        if (sg(a) == 0) return ZERO;
        if (sg(a) != 1) return NAN;
        return mk(1, unbig(big(mag(a)).shiftLeft(BITS*FRAC).sqrt()));
    }
    public static Value FxSumPairs(Value s) {
        Value x = ZERO, y = ZERO;
        for (Value p : el(s)) { Value[] e = el(p); x = FxAdd(x, e[0]); y = FxAdd(y, e[1]); }
        return new TupleValue(new Value[] { x, y });
    }
    public static Value FxPoly(Value c, Value x) {
        Value[] e = el(c);
        Value acc = e[e.length - 1];
        for (int i = e.length - 2; i >= 0; i--) acc = FxAdd(e[i], FxMul(x, acc));
        return acc;
    }
    public static Value FxCmp(Value x, Value y) { return IntValue.gen(compare(x, y)); }
    public static Value FxLe(Value x, Value y) { return compare(x, y) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value FxLt(Value x, Value y) { return compare(x, y) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value FxFloor(Value x) {
        Value[] a = el(x);
        if (bad(a)) return NAN;
        int s = sg(a);
        int[] m = mag(a), t = m.clone();
        boolean frac = false;
        for (int i = 0; i < Math.min(FRAC, m.length); i++) { frac |= m[i] != 0; t[i] = 0; }
        if (s < 0 && frac) return mk(-1, add(t, up(new int[] { 1 }, FRAC)));
        return mk(s, t);
    }
    public static Value FxFloorInt(Value x) {
        Value[] t = el(FxFloor(x));
        BigInteger v = big(down(mag(t), FRAC));
        if (sg(t) < 0) v = v.negate();
        return IntValue.gen(v.intValueExact());
    }
    private static TupleValue pow2(int k) {
        if (k < -75) return ZERO;
        int b = k + 75;
        int[] m = new int[b/BITS + 1];
        m[b/BITS] = 1 << (b % BITS);
        return mk(1, m);
    }
    public static Value FxPow2(Value k) { return pow2(((IntValue)k).val); }
    public static Value FxUlp(Value x) {
        Value[] a = el(x);
        if (bad(a)) return NAN;
        if (sg(a) == 0) return TINY;
        int[] m = mag(a);
        int e = BITS*(m.length - 1 - FRAC) + (32 - Integer.numberOfLeadingZeros(m[m.length - 1])) - 1;
        return e - 52 <= -75 ? TINY : pow2(e - 52);
    }
    public static Value FxDec(Value s) {
        BigDecimal d = new BigDecimal(((StringValue)s).val.toString());
        int sign = d.signum();
        BigInteger u = d.unscaledValue().abs().shiftLeft(BITS*FRAC);
        int e = -d.scale();
        u = e >= 0 ? u.multiply(BigInteger.TEN.pow(e)) : u.divide(BigInteger.TEN.pow(-e));
        return mk(sign, unbig(u));
    }
}
