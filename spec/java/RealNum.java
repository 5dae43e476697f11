/* TLC module override for RealNum.tla: scalar IEEE-754 double arithmetic.
 * A number is the pair <<hi, lo>> of the two 32-bit halves of its bit pattern,
 * so numbers are ordinary TLC values (comparable, fingerprintable, readable from
 * JSON).  Only scalars are overridden: vectors, matrices, exponentials of
 * matrices, integrals, ... are all written out in TLA+. */
import tlc2.value.impl.*;

public class RealNum {
    private static double d(final Value v) {
        final TupleValue t = (TupleValue) v.toTuple();
        final long hi = ((IntValue) t.elems[0]).val;
        final long lo = ((IntValue) t.elems[1]).val & 0xffffffffL;
        return Double.longBitsToDouble((hi << 32) | lo);
    }
    private static Value v(double x) {
        if (x == 0.0) x = 0.0;                 /* no negative zero */
        final long b = Double.doubleToLongBits(x);
        return new TupleValue(new Value[] {
            IntValue.gen((int) (b >>> 32)), IntValue.gen((int) b) });
    }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value RAdd(Value x, Value y) { return v(d(x) + d(y)); }
    public static Value RSub(Value x, Value y) { return v(d(x) - d(y)); }
    public static Value RMul(Value x, Value y) { return v(d(x) * d(y)); }
    public static Value RDiv(Value x, Value y) { return v(d(x) / d(y)); }
    public static Value RNeg(Value x) { return v(-d(x)); }
    public static Value RAbs(Value x) { return v(Math.abs(d(x))); }
    public static Value RLn(Value x) { return v(Math.log(d(x))); }
    public static Value RExp(Value x) { return v(Math.exp(d(x))); }
    public static Value RSqrt(Value x) { return v(Math.sqrt(d(x))); }
    public static Value RLeq(Value x, Value y) { return b(d(x) <= d(y)); }
    public static Value RLt(Value x, Value y) { return b(d(x) < d(y)); }
    public static Value REq(Value x, Value y) { return b(d(x) == d(y)); }
    public static Value IsFin(Value x) { return b(!Double.isNaN(d(x)) && !Double.isInfinite(d(x))); }
    public static Value RInt(Value n) { return v(((IntValue) n).val); }
    public static Value RFrac(Value n, Value m) {
        return v((double) ((IntValue) n).val / (double) ((IntValue) m).val); }
    public static Value RPow10(Value n) { return v(Math.pow(10.0, ((IntValue) n).val)); }
    /* |x-y| <= 10^-k * max(1,|x|,|y|); FALSE on NaN */
    public static Value RNear(Value x, Value y, Value k) {
        final double a = d(x), c = d(y);
        final double m = Math.max(1.0, Math.max(Math.abs(a), Math.abs(c)));
        return b(Math.abs(a - c) <= Math.pow(10.0, -((IntValue) k).val) * m);
    }
    public static Value RShow(Value x) { return new StringValue(Double.toString(d(x))); }
    /* Sum of a sequence / dot product of two sequences (plain left-to-right sums). */
    public static Value RSum(Value s) {
        final TupleValue t = (TupleValue) s.toTuple();
        double r = 0; for (Value e : t.elems) r += d(e); return v(r);
    }
    public static Value RDot(Value s, Value u) {
        final TupleValue t = (TupleValue) s.toTuple(), w = (TupleValue) u.toTuple();
        double r = 0; for (int i = 0; i < t.elems.length; i++) r += d(t.elems[i]) * d(w.elems[i]);
        return v(r);
    }
}
