import java.math.BigInteger;
import tlc2.value.impl.*;

/** TLC evaluation of some operators of module Lin; same definitions, same rounding. */
public class Lin {
    static BigInteger[][] mat(final Value m) {
        final Value[] r = Fx.elems(m);
        return new BigInteger[][] { Fx.vec(r[0]), Fx.vec(r[1]), Fx.vec(r[2]) };
    }
    static Value val(final BigInteger[][] m) {
        return new TupleValue(new Value[] { Fx.tup(m[0]), Fx.tup(m[1]), Fx.tup(m[2]) });
    }
    static BigInteger[] v(final BigInteger a, final BigInteger b, final BigInteger c) {
        return new BigInteger[] { a, b, c };
    }
    static BigInteger row(final BigInteger[] r, final BigInteger[] d) {
        return Fx.dot(v(r[0], r[1], r[2]), v(d[0], d[1], d[2]));
    }
    static BigInteger[] pt(final BigInteger[][] m, final BigInteger[] p) {
        return v(Fx.add(row(m[0], p), m[0][3]), Fx.add(row(m[1], p), m[1][3]), Fx.add(row(m[2], p), m[2][3]));
    }
    static BigInteger[] dir(final BigInteger[][] m, final BigInteger[] d) {
        return v(row(m[0], d), row(m[1], d), row(m[2], d));
    }
    public static Value VAdd(final Value x, final Value y) {
        final BigInteger[] a = Fx.vec(x), b = Fx.vec(y);
        return Fx.tup(Fx.add(a[0], b[0]), Fx.add(a[1], b[1]), Fx.add(a[2], b[2]));
    }
    public static Value VSub(final Value x, final Value y) {
        final BigInteger[] a = Fx.vec(x), b = Fx.vec(y);
        return Fx.tup(Fx.sub(a[0], b[0]), Fx.sub(a[1], b[1]), Fx.sub(a[2], b[2]));
    }
    public static Value VScale(final Value x, final Value y) {
        final BigInteger s = Fx.raw(x);
        final BigInteger[] b = Fx.vec(y);
        return Fx.tup(Fx.mul(s, b[0]), Fx.mul(s, b[1]), Fx.mul(s, b[2]));
    }
    public static Value VOpp(final Value y) {
        final BigInteger[] b = Fx.vec(y);
        return Fx.tup(Fx.opp(b[0]), Fx.opp(b[1]), Fx.opp(b[2]));
    }
    public static Value VNorm(final Value x) {
        final BigInteger[] a = Fx.vec(x);
        return Fx.cook(Fx.sqrt(Fx.dot(a, a)));
    }
    public static Value VUnit(final Value x) {
        final BigInteger[] a = Fx.vec(x);
        final BigInteger n = Fx.sqrt(Fx.dot(a, a));
        return Fx.tup(Fx.div(a[0], n), Fx.div(a[1], n), Fx.div(a[2], n));
    }
    public static Value VMax(final Value x) {
        final BigInteger[] a = Fx.vec(x);
        return Fx.cook(a[0].abs().max(a[1].abs()).max(a[2].abs()));
    }
    public static Value At(final Value o, final Value d, final Value t) {
        final BigInteger[] a = Fx.vec(o), b = Fx.vec(d);
        final BigInteger s = Fx.raw(t);
        return Fx.tup(Fx.add(a[0], Fx.mul(s, b[0])), Fx.add(a[1], Fx.mul(s, b[1])), Fx.add(a[2], Fx.mul(s, b[2])));
    }
    public static Value MPt(final Value m, final Value p) { return Fx.tup(pt(mat(m), Fx.vec(p))); }
    public static Value MDir(final Value m, final Value p) { return Fx.tup(dir(mat(m), Fx.vec(p))); }
    public static Value MTDir(final Value mm, final Value p) {
        final BigInteger[][] m = mat(mm);
        final BigInteger[] d = Fx.vec(p);
        final BigInteger[] r = new BigInteger[3];
        for (int i = 0; i < 3; i++) r[i] = Fx.dot(v(m[0][i], m[1][i], m[2][i]), v(d[0], d[1], d[2]));
        return Fx.tup(r);
    }
    public static Value MMul(final Value x, final Value y) {
        final BigInteger[][] a = mat(x), b = mat(y), r = new BigInteger[3][4];
        for (int i = 0; i < 3; i++) {
            for (int j = 0; j < 4; j++) r[i][j] = row(a[i], v(b[0][j], b[1][j], b[2][j]));
            r[i][3] = Fx.add(r[i][3], a[i][3]);
        }
        return val(r);
    }
    static BigInteger cof(final BigInteger[][] m, final int r, final int c) {
        final int r1 = r == 0 ? 1 : 0, r2 = r == 2 ? 1 : 2, c1 = c == 0 ? 1 : 0, c2 = c == 2 ? 1 : 2;
        final BigInteger d = Fx.sub(Fx.mul(m[r1][c1], m[r2][c2]), Fx.mul(m[r1][c2], m[r2][c1]));
        return (r + c) % 2 == 0 ? d : Fx.opp(d);
    }
    static BigInteger det(final BigInteger[][] m) {
        return Fx.add(Fx.mul(m[0][0], cof(m, 0, 0)),
                      Fx.add(Fx.mul(m[0][1], cof(m, 0, 1)), Fx.mul(m[0][2], cof(m, 0, 2))));
    }
    public static Value Det(final Value m) { return Fx.cook(det(mat(m))); }
    public static Value Inv(final Value mm) {
        final BigInteger[][] m = mat(mm), r = new BigInteger[3][4];
        final BigInteger d = det(m);
        final BigInteger[] t = v(m[0][3], m[1][3], m[2][3]);
        for (int i = 0; i < 3; i++) {
            for (int j = 0; j < 3; j++) r[i][j] = Fx.div(cof(m, j, i), d);
            r[i][3] = Fx.opp(Fx.dot(v(r[i][0], r[i][1], r[i][2]), t));
        }
        return val(r);
    }
}
