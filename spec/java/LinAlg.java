/* TLC module override for LinAlg.tla, for speed only: the TLA+ definitions of the
 * same operators are the specification, and spec/LinAlgSelfTest compares the two. */
import tlc2.value.impl.*;

public class LinAlg {
    static double d(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final long hi = ((IntValue) t.elems[0]).val;
        final long lo = ((IntValue) t.elems[1]).val & 0xffffffffL;
        return Double.longBitsToDouble((hi << 32) | lo);
    }
    static Value v(double x) {
        if (x == 0.0) x = 0.0;
        final long b = Double.doubleToLongBits(x);
        return new TupleValue(new Value[] {
            IntValue.gen((int) (b >>> 32)), IntValue.gen((int) b) });
    }
    static double[] vec(Value s) {
        final TupleValue t = (TupleValue) s.toTuple();
        final double[] r = new double[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = d(t.elems[i]);
        return r;
    }
    static double[][] mat(Value s) {
        final TupleValue t = (TupleValue) s.toTuple();
        final double[][] r = new double[t.elems.length][];
        for (int i = 0; i < r.length; i++) r[i] = vec(t.elems[i]);
        return r;
    }
    static Value vv(double[] x) {
        final Value[] e = new Value[x.length];
        for (int i = 0; i < e.length; i++) e[i] = v(x[i]);
        return new TupleValue(e);
    }
    static Value mv(double[][] x) {
        final Value[] e = new Value[x.length];
        for (int i = 0; i < e.length; i++) e[i] = vv(x[i]);
        return new TupleValue(e);
    }
    static double[][] tr(double[][] a) {
        if (a.length == 0) return a;
        final double[][] r = new double[a[0].length][a.length];
        for (int i = 0; i < a.length; i++) for (int j = 0; j < a[0].length; j++) r[j][i] = a[i][j];
        return r;
    }
    static double[][] mul(double[][] a, double[][] b) {
        final int n = a.length, m = b.length, p = m == 0 ? 0 : b[0].length;
        final double[][] r = new double[n][p];
        for (int i = 0; i < n; i++) {
            if (a[i].length != m) throw new RuntimeException("MMul: dimensions");
            for (int j = 0; j < p; j++) {
                double s = 0; for (int k = 0; k < m; k++) s += a[i][k] * b[k][j]; r[i][j] = s; }
        }
        return r;
    }
    interface F { double f(double x, double y, int i, int j); }
    static double[][] map(double[][] a, double[][] b, F f) {
        final double[][] r = new double[a.length][];
        for (int i = 0; i < a.length; i++) {
            r[i] = new double[a[i].length];
            for (int j = 0; j < a[i].length; j++) r[i][j] = f.f(a[i][j], b == null ? 0 : b[i][j], i, j);
        }
        return r;
    }
    public static Value Transp(Value a) { return mv(tr(mat(a))); }
    public static Value Ident(Value n) {
        final int m = ((IntValue) n).val; final double[][] r = new double[m][m];
        for (int i = 0; i < m; i++) r[i][i] = 1; return mv(r); }
    public static Value ZeroM(Value n) { final int m = ((IntValue) n).val; return mv(new double[m][m]); }
    public static Value MAdd(Value a, Value b) { return mv(map(mat(a), mat(b), (x, y, i, j) -> x + y)); }
    public static Value MSub(Value a, Value b) { return mv(map(mat(a), mat(b), (x, y, i, j) -> x - y)); }
    public static Value MScale(Value c, Value a) { final double k = d(c); return mv(map(mat(a), null, (x, y, i, j) -> k * x)); }
    public static Value MMul(Value a, Value b) { return mv(mul(mat(a), mat(b))); }
    public static Value VMat(Value x, Value a) { return vv(mul(new double[][] { vec(x) }, mat(a))[0]); }
    public static Value MVec(Value a, Value x) {
        final double[][] m = mat(a); final double[] y = vec(x), r = new double[m.length];
        for (int i = 0; i < r.length; i++) { double s = 0; for (int k = 0; k < y.length; k++) s += m[i][k] * y[k]; r[i] = s; }
        return vv(r); }
    public static Value DiagL(Value x, Value a) { final double[] p = vec(x); return mv(map(mat(a), null, (u, w, i, j) -> p[i] * u)); }
    public static Value DiagR(Value a, Value x) { final double[] p = vec(x); return mv(map(mat(a), null, (u, w, i, j) -> u * p[j])); }
    public static Value Outer(Value x, Value y) {
        final double[] p = vec(x), q = vec(y); final double[][] r = new double[p.length][q.length];
        for (int i = 0; i < p.length; i++) for (int j = 0; j < q.length; j++) r[i][j] = p[i] * q[j];
        return mv(r); }
    public static Value NormRows(Value a) {
        final double[][] m = mat(a);
        for (double[] row : m) { double s = 0; for (double x : row) s += x;
            if (s != 0.0) for (int j = 0; j < row.length; j++) row[j] /= s; }
        return mv(m); }
    static boolean near(double a, double c, int k) {
        final double m = Math.max(1.0, Math.max(Math.abs(a), Math.abs(c)));
        return Math.abs(a - c) <= Math.pow(10.0, -k) * m; }
    public static Value VNear(Value a, Value b, Value k) {
        final double[] x = vec(a), y = vec(b); final int p = ((IntValue) k).val;
        if (x.length != y.length) return BoolValue.ValFalse;
        for (int i = 0; i < x.length; i++) if (!near(x[i], y[i], p)) return BoolValue.ValFalse;
        return BoolValue.ValTrue; }
    public static Value MNear(Value a, Value b, Value k) {
        final double[][] x = mat(a), y = mat(b); final int p = ((IntValue) k).val;
        if (x.length != y.length) return BoolValue.ValFalse;
        for (int i = 0; i < x.length; i++) {
            if (x[i].length != y[i].length) return BoolValue.ValFalse;
            for (int j = 0; j < x[i].length; j++) if (!near(x[i][j], y[i][j], p)) return BoolValue.ValFalse; }
        return BoolValue.ValTrue; }
    public static Value Expm(Value a) {
        double[][] m = mat(a); final int n = m.length;
        double norm = 0; for (double[] r : m) { double s = 0; for (double x : r) s += Math.abs(x); norm = Math.max(norm, s); }
        int s = 0; while (norm > 0.5) { norm /= 2; s++; }
        final double sc = Math.pow(0.5, s);
        final double[][] b = map(m, null, (x, y, i, j) -> x * sc);
        double[][] acc = new double[n][n], term = new double[n][n];
        for (int i = 0; i < n; i++) { acc[i][i] = 1; term[i][i] = 1; }
        for (int k = 1; k <= 16; k++) {
            final double inv = 1.0 / k;
            term = map(mul(term, b), null, (x, y, i, j) -> x * inv);
            acc = map(acc, term, (x, y, i, j) -> x + y);
        }
        for (int k = 0; k < s; k++) acc = mul(acc, acc);
        return mv(acc); }
}
