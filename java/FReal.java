// Executable interpretation of the operators declared in spec/FReal.tla.
//
// A real number is represented in TLC as the pair <<hi, lo>> of the two 32-bit
// halves of an IEEE-754 double, so traces can carry the exact values the code
// produced.  The TLA+ definitions stay ordinary mathematics; this class only
// gives TLC a way to evaluate them.
import tlc2.value.impl.*;
import tlc2.value.IValue;

public class FReal {
    static double d(Value v) {
        if (v instanceof IntValue) return ((IntValue) v).val;
        TupleValue t = (TupleValue) v.toTuple();
        if (t == null || t.elems.length != 2) throw new RuntimeException("FReal: not a real: " + v);
        long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val & 0xffffffffL;
        return Double.longBitsToDouble((hi << 32) | lo);
    }
    static Value v(double x) {
        if (x == 0) x = 0.0;                 // no signed zero in the specification
        if (Double.isNaN(x)) x = Double.NaN; // canonical NaN
        long b = Double.doubleToRawLongBits(x);
        return new TupleValue(new Value[] {IntValue.gen((int) (b >>> 32)), IntValue.gen((int) b)});
    }
    static BoolValue b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
    static double[] seq(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        double[] r = new double[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = d(t.elems[i]);
        return r;
    }

    public static Value R(Value n) { return v(d(n)); }
    public static Value RRat(Value p, Value q) { return v(d(p) / d(q)); }
    public static Value RTen(Value k) { return v(Double.parseDouble("1e" + ((IntValue) k).val)); }
    public static Value RAdd(Value x, Value y) { return v(d(x) + d(y)); }
    public static Value RSub(Value x, Value y) { return v(d(x) - d(y)); }
    public static Value RMul(Value x, Value y) { return v(d(x) * d(y)); }
    public static Value RDiv(Value x, Value y) { return v(d(x) / d(y)); }
    public static Value RNeg(Value x) { return v(-d(x)); }
    public static Value RAbs(Value x) { return v(Math.abs(d(x))); }
    public static Value RMax(Value x, Value y) { return v(Math.max(d(x), d(y))); }
    public static Value RMin(Value x, Value y) { return v(Math.min(d(x), d(y))); }
    public static Value RSqrt(Value x) { return v(Math.sqrt(d(x))); }
    public static Value RExp(Value x) { return v(Math.exp(d(x))); }
    public static Value RLn(Value x) { return v(Math.log(d(x))); }
    public static Value RPow(Value x, Value y) { return v(Math.pow(d(x), d(y))); }
    public static Value RSin(Value x) { return v(Math.sin(d(x))); }
    public static Value RCos(Value x) { return v(Math.cos(d(x))); }
    public static Value RTan(Value x) { return v(Math.tan(d(x))); }
    public static Value RAtan(Value x) { return v(Math.atan(d(x))); }
    public static Value RAtan2(Value y, Value x) { return v(Math.atan2(d(y), d(x))); }
    public static Value RPi() { return v(Math.PI); }
    public static Value RFloor(Value x) { return v(Math.floor(d(x))); }
    public static Value RMod(Value x, Value y) { double a = d(x), m = d(y); return v(a - m * Math.floor(a / m)); }
    public static Value RToInt(Value x) { return IntValue.gen((int) d(x)); }
    // x single-precision rounded
    public static Value RFloat(Value x) { return v((double) (float) d(x)); }
    public static Value RLt(Value x, Value y) { return b(d(x) < d(y)); }
    public static Value RLe(Value x, Value y) { return b(d(x) <= d(y)); }
    public static Value REq(Value x, Value y) { return b(d(x) == d(y)); }
    public static Value RIsNaN(Value x) { return b(Double.isNaN(d(x))); }
    public static Value RIsFinite(Value x) { double a = d(x); return b(!Double.isNaN(a) && !Double.isInfinite(a)); }
    public static Value RIsInf(Value x) { return b(Double.isInfinite(d(x))); }
    // |x - y| <= tol * max(1, |y|); equal infinities and NaN/NaN are near
    static boolean near(double x, double y, double tol) {
        if (Double.isNaN(x) || Double.isNaN(y)) return Double.isNaN(x) && Double.isNaN(y);
        if (x == y) return true;
        if (Double.isInfinite(x) || Double.isInfinite(y)) return false;
        return Math.abs(x - y) <= tol * Math.max(1.0, Math.abs(y));
    }
    public static Value RNear(Value x, Value y, Value tol) { return b(near(d(x), d(y), d(tol))); }
    // |x - y| <= tol * scale
    public static Value RWithin(Value x, Value y, Value tol) {
        double a = d(x), c = d(y);
        if (Double.isNaN(a) || Double.isNaN(c)) return b(Double.isNaN(a) && Double.isNaN(c));
        if (a == c) return b(true);
        return b(Math.abs(a - c) <= d(tol));
    }
    // compensated, so that the sums of the specification are more accurate than those of the code
    static double sum(double[] a, double[] c) {
        double r = 0, e = 0;
        for (int i = 0; i < a.length; i++) {
            double p = c == null ? a[i] : a[i] * c[i];
            if (c != null) { double f = Math.fma(a[i], c[i], -p); if (!Double.isNaN(f) && !Double.isInfinite(f)) e += f; }
            double t = r + p;
            double f = Math.abs(r) >= Math.abs(p) ? (r - t) + p : (p - t) + r;
            if (!Double.isNaN(f) && !Double.isInfinite(f)) e += f;
            r = t;
        }
        return Double.isInfinite(r) || Double.isNaN(r) ? r : r + e;
    }
    public static Value RSum(Value s) { return v(sum(seq(s), null)); }
    public static Value RDot(Value s, Value t) { return v(sum(seq(s), seq(t))); }
    public static Value RSeqNear(Value s, Value t, Value tol) {
        double[] a = seq(s), c = seq(t); double e = d(tol);
        if (a.length != c.length) return b(false);
        for (int i = 0; i < a.length; i++) if (!near(a[i], c[i], e)) return b(false);
        return b(true);
    }
    public static Value RStr(Value x) { return new StringValue(Double.toString(d(x))); }
}
