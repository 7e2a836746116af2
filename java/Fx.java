import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.RoundingMode;
import tlc2.value.impl.*;

/** TLC evaluation of module Fx (see spec/Fx.tla for the definitions). */
public class Fx {
    static final BigInteger ONE90 = BigInteger.ONE.shiftLeft(90);
    static final BigInteger MAX = BigInteger.valueOf(2147483647L).multiply(ONE90);
    static final BigInteger MIN = MAX.negate();
    private static final int MASK = (1 << 30) - 1;

    static BigInteger raw(final Value v) {
        final Value[] e = ((TupleValue) v.toTuple()).elems;
        final long h = ((IntValue) e[0]).val, a = ((IntValue) e[1]).val;
        final long b = ((IntValue) e[2]).val, c = ((IntValue) e[3]).val;
        BigInteger hi = BigInteger.valueOf((h << 30) + a);
        BigInteger lo = BigInteger.valueOf((b << 30) + c);
        return hi.shiftLeft(60).add(lo);
    }

    static Value cook(BigInteger i) {
        if (i.compareTo(MAX) > 0) i = MAX; else if (i.compareTo(MIN) < 0) i = MIN;
        final BigInteger hi = i.shiftRight(60);
        final long H = hi.longValue();
        final long L = i.subtract(hi.shiftLeft(60)).longValue();
        return new TupleValue(new Value[] {
            IntValue.gen((int) (H >> 30)), IntValue.gen((int) (H & MASK)),
            IntValue.gen((int) (L >> 30)), IntValue.gen((int) (L & MASK)) });
    }

    static BigInteger fdiv(final BigInteger p, final BigInteger q) {
        final BigInteger[] d = p.divideAndRemainder(q);
        if (d[1].signum() != 0 && (d[1].signum() != q.signum())) return d[0].subtract(BigInteger.ONE);
        return d[0];
    }

    // ------------------------------------------------ on raw (scaled) integers
    static BigInteger clamp(final BigInteger i) {
        return i.compareTo(MAX) > 0 ? MAX : i.compareTo(MIN) < 0 ? MIN : i;
    }
    static BigInteger add(final BigInteger x, final BigInteger y) { return clamp(x.add(y)); }
    static BigInteger sub(final BigInteger x, final BigInteger y) { return clamp(x.subtract(y)); }
    static BigInteger opp(final BigInteger x) { return clamp(x.negate()); }
    static BigInteger mul(final BigInteger x, final BigInteger y) { return clamp(x.multiply(y).shiftRight(90)); }
    static BigInteger div(final BigInteger p, final BigInteger q) {
        if (q.signum() == 0) return p.signum() >= 0 ? MAX : MIN;
        return clamp(fdiv(p.shiftLeft(90), q));
    }
    /** floor of the square root, Newton iteration from a double estimate */
    static BigInteger isqrt(final BigInteger n) {
        final int sh = Math.max(0, n.bitLength() - 62) & ~1;
        BigInteger r = BigInteger.valueOf((long) Math.sqrt((double) n.shiftRight(sh).longValue()) + 1).shiftLeft(sh / 2);
        while (true) {                       // r is an upper estimate up to rounding
            final BigInteger q = n.divide(r), d = r.subtract(q);
            if (d.abs().bitLength() <= 1) break;
            r = r.add(q).shiftRight(1);
        }
        while (r.multiply(r).compareTo(n) > 0) r = r.subtract(BigInteger.ONE);
        while (true) {
            final BigInteger r1 = r.add(BigInteger.ONE);
            if (r1.multiply(r1).compareTo(n) > 0) return r;
            r = r1;
        }
    }
    static BigInteger sqrt(final BigInteger p) {
        return p.signum() <= 0 ? BigInteger.ZERO : clamp(isqrt(p.shiftLeft(90)));
    }
    static BigInteger dot(final BigInteger[] a, final BigInteger[] b) {
        BigInteger s = BigInteger.ZERO;
        for (int i = 0; i < a.length; i++) s = s.add(a[i].multiply(b[i]));
        return clamp(s.shiftRight(90));
    }
    // ------------------------------------------------------- trigonometry
    private static final BigInteger TWO90 = ONE90.shiftLeft(1), HALF90 = ONE90.shiftRight(1);
    private static BigInteger dec(final long p, final int e) {
        return clamp(fdiv(BigInteger.valueOf(p).shiftLeft(90), BigInteger.TEN.pow(e)));
    }
    private static final BigInteger PI = add(BigInteger.valueOf(3).shiftLeft(90),
        add(dec(141592653, 9), add(dec(589793238, 18), dec(462643383, 27))));
    private static BigInteger series(final BigInteger x2, final BigInteger first, final int k0) {
        BigInteger t = first, acc = BigInteger.ZERO;
        for (int k = k0; ; k += 2) {
            acc = add(acc, t);
            if (k > 41) return acc;
            t = opp(div(mul(t, x2), BigInteger.valueOf((k + 1) * (k + 2)).shiftLeft(90)));
        }
    }
    private static BigInteger reduce(final BigInteger x) {
        final BigInteger two = mul(TWO90, PI), n = add(div(x, two), HALF90).shiftRight(90).shiftLeft(90);
        return sub(x, mul(n, two));
    }
    public static Value Sin(final Value x) {
        final BigInteger r = reduce(raw(x));
        return cook(series(mul(r, r), r, 1));
    }
    public static Value Cos(final Value x) {
        final BigInteger r = reduce(raw(x));
        return cook(series(mul(r, r), ONE90, 0));
    }
    static Value[] elems(final Value v) { return ((TupleValue) v.toTuple()).elems; }
    static BigInteger[] vec(final Value v) {
        final Value[] e = elems(v);
        final BigInteger[] r = new BigInteger[e.length];
        for (int i = 0; i < r.length; i++) r[i] = raw(e[i]);
        return r;
    }
    static Value tup(final BigInteger... x) {
        final Value[] e = new Value[x.length];
        for (int i = 0; i < e.length; i++) e[i] = cook(x[i]);
        return new TupleValue(e);
    }

    public static Value Rat(final Value p, final Value q) {
        return cook(fdiv(BigInteger.valueOf(((IntValue) p).val).shiftLeft(90),
                         BigInteger.valueOf(((IntValue) q).val)));
    }
    public static Value Dec(final Value p, final Value e) {
        return cook(fdiv(BigInteger.valueOf(((IntValue) p).val).shiftLeft(90),
                         BigInteger.TEN.pow(((IntValue) e).val)));
    }
    public static Value Add(final Value x, final Value y) { return cook(raw(x).add(raw(y))); }
    public static Value Sub(final Value x, final Value y) { return cook(raw(x).subtract(raw(y))); }
    public static Value Opp(final Value x) { return cook(raw(x).negate()); }
    public static Value Mul(final Value x, final Value y) {
        return cook(raw(x).multiply(raw(y)).shiftRight(90));
    }
    public static Value Div(final Value x, final Value y) {
        final BigInteger p = raw(x), q = raw(y);
        if (q.signum() == 0) return cook(p.signum() >= 0 ? MAX : MIN);
        return cook(fdiv(p.shiftLeft(90), q));
    }
    public static Value Sqrt(final Value x) {
        final BigInteger p = raw(x);
        if (p.signum() <= 0) return cook(BigInteger.ZERO);
        return cook(isqrt(p.shiftLeft(90)));
    }
    static Value bool(final boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value Lt(final Value x, final Value y) { return bool(raw(x).compareTo(raw(y)) < 0); }
    public static Value Le(final Value x, final Value y) { return bool(raw(x).compareTo(raw(y)) <= 0); }
    public static Value Floor(final Value x) { return ((TupleValue) x.toTuple()).elems[0]; }
    public static Value Dot(final Value x, final Value y) {
        final Value[] a = ((TupleValue) x.toTuple()).elems, b = ((TupleValue) y.toTuple()).elems;
        BigInteger s = BigInteger.ZERO;
        for (int i = 0; i < a.length; i++) s = s.add(raw(a[i]).multiply(raw(b[i])));
        return cook(s.shiftRight(90));
    }
    public static Value Show(final Value x) {
        final BigDecimal d = new BigDecimal(raw(x)).divide(new BigDecimal(ONE90), 15, RoundingMode.HALF_EVEN);
        return new StringValue(d.stripTrailingZeros().toPlainString());
    }
}
