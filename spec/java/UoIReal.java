import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/**
 * TLC module override for Real.tla: IEEE-754 double arithmetic.
 *
 * A real is a pair <<high 32 bits, low 32 bits>> of the double.  Integers and
 * decimal strings (which is how traces write floating point numbers, as
 * TLC's integers have 32 bits) are accepted wherever a real is.
 */
public class UoIReal implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    public Class[] get() {
        return new Class[] { UoIReal.class };
    }

    private static double d(final Value v) {
        if (v instanceof IntValue) {
            return ((IntValue) v).val;
        }
        if (v instanceof StringValue) {
            final String s = ((StringValue) v).val.toString();
            if (s.equals("nan")) {
                return Double.NaN;
            }
            if (s.equals("inf")) {
                return Double.POSITIVE_INFINITY;
            }
            if (s.equals("-inf")) {
                return Double.NEGATIVE_INFINITY;
            }
            return Double.parseDouble(s);
        }
        final Value t = v.toTuple();
        if (t instanceof TupleValue && ((TupleValue) t).elems.length == 2) {
            final Value[] e = ((TupleValue) t).elems;
            return Double.longBitsToDouble(((long) ((IntValue) e[0]).val << 32)
                    | (((IntValue) e[1]).val & 0xffffffffL));
        }
        throw new RuntimeException("not a real: " + v);
    }

    private static Value r(final double x) {
        // one zero only, so that equal reals are equal values
        final long b = Double.doubleToLongBits(x == 0. ? 0. : x);
        return new TupleValue(new Value[] { IntValue.gen((int) (b >> 32)), IntValue.gen((int) b) });
    }

    private static Value b(final boolean x) {
        return x ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    private static Value[] seq(final Value v) {
        final Value t = v.toTuple();
        if (t == null) {
            throw new RuntimeException("not a sequence: " + v);
        }
        return ((TupleValue) t).elems;
    }

    @TLAPlusOperator(identifier = "RVal", module = "Real", warn = false)
    public static Value rVal(final Value x) { return r(d(x)); }

    @TLAPlusOperator(identifier = "RAdd", module = "Real", warn = false)
    public static Value rAdd(final Value x, final Value y) { return r(d(x) + d(y)); }

    @TLAPlusOperator(identifier = "RSub", module = "Real", warn = false)
    public static Value rSub(final Value x, final Value y) { return r(d(x) - d(y)); }

    @TLAPlusOperator(identifier = "RMul", module = "Real", warn = false)
    public static Value rMul(final Value x, final Value y) { return r(d(x) * d(y)); }

    @TLAPlusOperator(identifier = "RDiv", module = "Real", warn = false)
    public static Value rDiv(final Value x, final Value y) { return r(d(x) / d(y)); }

    @TLAPlusOperator(identifier = "RNeg", module = "Real", warn = false)
    public static Value rNeg(final Value x) { return r(-d(x)); }

    @TLAPlusOperator(identifier = "RAbs", module = "Real", warn = false)
    public static Value rAbs(final Value x) { return r(Math.abs(d(x))); }

    @TLAPlusOperator(identifier = "RExp", module = "Real", warn = false)
    public static Value rExp(final Value x) { return r(Math.exp(d(x))); }

    @TLAPlusOperator(identifier = "RLn", module = "Real", warn = false)
    public static Value rLn(final Value x) { return r(Math.log(d(x))); }

    @TLAPlusOperator(identifier = "RSqrt", module = "Real", warn = false)
    public static Value rSqrt(final Value x) { return r(Math.sqrt(d(x))); }

    @TLAPlusOperator(identifier = "RFloor", module = "Real", warn = false)
    public static Value rFloor(final Value x) { return r(Math.floor(d(x))); }

    @TLAPlusOperator(identifier = "RLt", module = "Real", warn = false)
    public static Value rLt(final Value x, final Value y) { return b(d(x) < d(y)); }

    @TLAPlusOperator(identifier = "RLeq", module = "Real", warn = false)
    public static Value rLeq(final Value x, final Value y) { return b(d(x) <= d(y)); }

    @TLAPlusOperator(identifier = "REq", module = "Real", warn = false)
    public static Value rEq(final Value x, final Value y) {
        final double p = d(x), q = d(y);
        return b(p == q || (Double.isNaN(p) && Double.isNaN(q)));
    }

    @TLAPlusOperator(identifier = "RIsFinite", module = "Real", warn = false)
    public static Value rIsFinite(final Value x) {
        final double p = d(x);
        return b(!Double.isNaN(p) && !Double.isInfinite(p));
    }

    /** |x - y| <= atol + rtol * max(|x|, |y|); infinities and NaN must agree. */
    @TLAPlusOperator(identifier = "RClose", module = "Real", warn = false)
    public static Value rClose(final Value x, final Value y, final Value rtol, final Value atol) {
        final double p = d(x), q = d(y);
        if (Double.isNaN(p) || Double.isNaN(q)) {
            return b(Double.isNaN(p) && Double.isNaN(q));
        }
        if (Double.isInfinite(p) || Double.isInfinite(q)) {
            return b(p == q);
        }
        return b(Math.abs(p - q) <= d(atol) + d(rtol) * Math.max(Math.abs(p), Math.abs(q)));
    }

    @TLAPlusOperator(identifier = "RSum", module = "Real", warn = false)
    public static Value rSum(final Value x) {
        double s = 0.;
        for (final Value e : seq(x)) {
            s += d(e);
        }
        return r(s);
    }

    @TLAPlusOperator(identifier = "RDot", module = "Real", warn = false)
    public static Value rDot(final Value x, final Value y) {
        final Value[] p = seq(x), q = seq(y);
        if (p.length != q.length) {
            throw new RuntimeException("RDot: lengths " + p.length + " and " + q.length);
        }
        double s = 0.;
        for (int i = 0; i < p.length; i++) {
            s += d(p[i]) * d(q[i]);
        }
        return r(s);
    }

    private static Value eager(final Value v) {
        final Value t = v instanceof RecordValue || v instanceof StringValue ? null : v.toTuple();
        if (!(t instanceof TupleValue)) {
            return v;
        }
        final Value[] e = ((TupleValue) t).elems, f = new Value[e.length];
        for (int i = 0; i < e.length; i++) {
            f[i] = eager(e[i]);
        }
        return new TupleValue(f);
    }

    /** The same sequence, evaluated once. */
    @TLAPlusOperator(identifier = "Eager", module = "Real", warn = false)
    public static Value eagerly(final Value x) { return eager(x); }

    @TLAPlusOperator(identifier = "RShow", module = "Real", warn = false)
    public static Value rShow(final Value x) { return new StringValue(Double.toString(d(x))); }

    @TLAPlusOperator(identifier = "RToInt", module = "Real", warn = false)
    public static Value rToInt(final Value x) {
        final double p = Math.rint(d(x));
        if (!(Math.abs(p) < 2147483647.)) {
            throw new RuntimeException("RToInt: " + p);
        }
        return IntValue.gen((int) p);
    }
}
