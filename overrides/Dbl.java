// Java overrides for specs/Dbl.tla: IEEE-754 doubles as pairs <<hi, lo>> of 32-bit integers.
import tlc2.value.impl.*;

public class Dbl {
    private static double d(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        long hi = ((IntValue) t.elems[0]).val, lo = ((IntValue) t.elems[1]).val;
        return Double.longBitsToDouble((hi << 32) | (lo & 0xffffffffL));
    }
    private static Value v(double x) {
        long b = Double.doubleToLongBits(x);
        return new TupleValue(new Value[]{IntValue.gen((int) (b >> 32)), IntValue.gen((int) b)});
    }
    private static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value DInt(Value n) { return v((double) ((IntValue) n).val); }
    public static Value DRat(Value n, Value m) { return v((double) ((IntValue) n).val / (double) ((IntValue) m).val); }
    public static Value DAdd(Value a, Value c) { return v(d(a) + d(c)); }
    public static Value DSub(Value a, Value c) { return v(d(a) - d(c)); }
    public static Value DMul(Value a, Value c) { return v(d(a) * d(c)); }
    public static Value DDiv(Value a, Value c) { return v(d(a) / d(c)); }
    public static Value DNeg(Value a) { return v(-d(a)); }
    public static Value DAbs(Value a) { return v(Math.abs(d(a))); }
    public static Value DExp(Value a) { return v(Math.exp(d(a))); }
    public static Value DLog(Value a) { return v(Math.log(d(a))); }
    public static Value DSqrt(Value a) { return v(Math.sqrt(d(a))); }
    public static Value DPow(Value a, Value c) { return v(Math.pow(d(a), d(c))); }
    public static Value DMax(Value a, Value c) { return v(Math.max(d(a), d(c))); }
    public static Value DMin(Value a, Value c) { return v(Math.min(d(a), d(c))); }
    public static Value DLt(Value a, Value c) { return b(d(a) < d(c)); }
    public static Value DLe(Value a, Value c) { return b(d(a) <= d(c)); }
    public static Value DEq(Value a, Value c) { return b(d(a) == d(c)); }
    public static Value DFinite(Value a) { return b(!Double.isNaN(d(a)) && !Double.isInfinite(d(a))); }
    public static Value DIsNaN(Value a) { return b(Double.isNaN(d(a))); }
    // |a-c| <= 10^-e * max(1,|a|,|c|); equal infinities are near, NaN is near nothing
    public static Value DNear(Value a, Value c, Value e) {
        double x = d(a), y = d(c);
        if (x == y) return BoolValue.ValTrue;
        if (Double.isNaN(x) || Double.isNaN(y) || Double.isInfinite(x) || Double.isInfinite(y)) return BoolValue.ValFalse;
        double tol = Math.pow(10.0, -((IntValue) e).val) * Math.max(1.0, Math.max(Math.abs(x), Math.abs(y)));
        return b(Math.abs(x - y) <= tol);
    }
    // |a-c| <= 10^-e * max(|a|,|c|,|s|): relative to an explicit scale s
    public static Value DNearS(Value a, Value c, Value e, Value s) {
        double x = d(a), y = d(c);
        if (x == y) return BoolValue.ValTrue;
        if (Double.isNaN(x) || Double.isNaN(y) || Double.isInfinite(x) || Double.isInfinite(y)) return BoolValue.ValFalse;
        double tol = Math.pow(10.0, -((IntValue) e).val) * Math.max(Math.abs(d(s)), Math.max(Math.abs(x), Math.abs(y)));
        return b(Math.abs(x - y) <= tol);
    }
    public static Value DSum(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        double r = 0.0;
        for (Value x : t.elems) r += d(x);
        return v(r);
    }
    public static Value DMaxSeq(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        double r = Double.NEGATIVE_INFINITY;
        for (Value x : t.elems) r = Math.max(r, d(x));
        return v(r);
    }
    // (sum of a_i), exactly rounded enough: Kahan sum of the absolute values, used as a scale for tolerances
    public static Value DSumAbs(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        double r = 0.0;
        for (Value x : t.elems) r += Math.abs(d(x));
        return v(r);
    }
    public static Value DFloor(Value a) { return IntValue.gen((int) Math.floor(d(a))); }
    public static Value DStr(Value a) { return new StringValue(Double.toString(d(a))); }
    // exactly as a C++ ostream prints a double with default precision (%g)
    public static Value DStrG(Value a) {
        double x = d(a);
        if (Double.isNaN(x)) return new StringValue("nan");
        if (Double.isInfinite(x)) return new StringValue(x > 0 ? "inf" : "-inf");
        if (x == 0.0) return new StringValue((1.0 / x < 0) ? "-0" : "0");
        java.math.BigDecimal bd = new java.math.BigDecimal(x).round(new java.math.MathContext(6, java.math.RoundingMode.HALF_EVEN));
        int exp = bd.precision() - bd.scale() - 1;
        String s;
        if (exp < -4 || exp >= 6) {
            java.math.BigDecimal m = bd.movePointLeft(exp).stripTrailingZeros();
            s = m.toPlainString() + "e" + (exp < 0 ? "-" : "+") + (Math.abs(exp) < 10 ? "0" : "") + Math.abs(exp);
        } else {
            s = bd.stripTrailingZeros().toPlainString();
        }
        return new StringValue(s);
    }
}
