import java.math.BigInteger;
import tlc2.value.impl.*;
import util.UniqueString;

/** TLC evaluation of some operators of module Geom; same definitions, same rounding. */
public class Geom {
    private static final UniqueString Q = UniqueString.of("q"), L = UniqueString.of("l"), C = UniqueString.of("c");
    private static final BigInteger ONE = Fx.ONE90, TWO = ONE.shiftLeft(1), FOUR = ONE.shiftLeft(2);
    private static final BigInteger TANG = Fx.fdiv(ONE, BigInteger.TEN.pow(11));

    private static Value get(final Value f, final UniqueString n) {
        final RecordValue r = (RecordValue) f.toRcd();
        for (int i = 0; i < r.names.length; i++) if (r.names[i].equals(n)) return r.values[i];
        throw new RuntimeException("not a form: " + f);
    }
    private static BigInteger[] prod(final BigInteger[] a, final BigInteger[] b) {
        return new BigInteger[] { Fx.mul(a[0], b[0]), Fx.mul(a[1], b[1]), Fx.mul(a[2], b[2]) };
    }
    private static BigInteger eval(final BigInteger[] q, final BigInteger[] l, final BigInteger c, final BigInteger[] p) {
        return Fx.add(Fx.add(Fx.dot(q, prod(p, p)), Fx.dot(l, p)), c);
    }
    public static Value FEval(final Value f, final Value p) {
        return Fx.cook(eval(Fx.vec(get(f, Q)), Fx.vec(get(f, L)), Fx.raw(get(f, C)), Fx.vec(p)));
    }
    public static Value FGrad(final Value f, final Value pp) {
        final BigInteger[] q = Fx.vec(get(f, Q)), l = Fx.vec(get(f, L)), p = Fx.vec(pp), r = new BigInteger[3];
        for (int i = 0; i < 3; i++) r[i] = Fx.add(Fx.mul(TWO, Fx.mul(q[i], p[i])), l[i]);
        return Fx.tup(r);
    }
    public static Value Along(final Value f, final Value oo, final Value dd) {
        final BigInteger[] q = Fx.vec(get(f, Q)), l = Fx.vec(get(f, L)), o = Fx.vec(oo), d = Fx.vec(dd);
        return Fx.tup(Fx.dot(q, prod(d, d)), Fx.add(Fx.mul(TWO, Fx.dot(q, prod(o, d))), Fx.dot(l, d)),
                      eval(q, l, Fx.raw(get(f, C)), o));
    }
    public static Value PEval(final Value a, final Value t) {
        final BigInteger[] x = Fx.vec(a);
        final BigInteger s = Fx.raw(t);
        return Fx.cook(Fx.add(Fx.mul(Fx.add(Fx.mul(x[0], s), x[1]), s), x[2]));
    }
    public static Value Roots(final Value a) {
        final BigInteger[] x = Fx.vec(a);
        final BigInteger A = x[0], B = x[1], C = x[2];
        if (A.signum() == 0) return B.signum() == 0 ? Fx.tup() : Fx.tup(Fx.div(Fx.opp(C), B));
        final BigInteger disc = Fx.sub(Fx.mul(B, B), Fx.mul(FOUR, Fx.mul(A, C)));
        final BigInteger tol = Fx.mul(TANG, Fx.mul(B, B).max(Fx.mul(A.abs(), A.abs().max(ONE))));
        if (disc.compareTo(Fx.opp(tol)) < 0) return Fx.tup();
        if (disc.signum() < 0) {
            final BigInteger t = Fx.div(Fx.opp(B), Fx.mul(TWO, A));
            return Fx.tup(t, t);
        }
        final BigInteger s = Fx.sqrt(disc);
        final BigInteger q = Fx.mul(Fx.opp(ONE.shiftRight(1)), B.signum() < 0 ? Fx.sub(B, s) : Fx.add(B, s));
        return q.signum() == 0 ? Fx.tup(BigInteger.ZERO, BigInteger.ZERO) : Fx.tup(Fx.div(q, A), Fx.div(C, q));
    }
}
