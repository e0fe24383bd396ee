package lfa;

import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/**
 * Arithmetic on real numbers for Num.tla.  A number is a TLA+ string: either a
 * decimal numeral or one of "NaN", "inf", "-inf".  Finite arithmetic is carried
 * out with 60 significant decimal digits, i.e. about 44 digits more than the
 * implementation's f64; operations on the three special values follow IEEE-754.
 */
public final class Num {
    private static final MathContext MC = new MathContext(60, RoundingMode.HALF_EVEN);
    private static final MathContext WIDE = new MathContext(90, RoundingMode.HALF_EVEN);
    private static final BigDecimal TWO = BigDecimal.valueOf(2);
    private static final BigDecimal PI = new BigDecimal(
        "3.14159265358979323846264338327950288419716939937510582097494459230781640628620899862803482534");

    private static final ConcurrentHashMap<String, Object> CACHE = new ConcurrentHashMap<>();
    private static final Object NAN = "NaN", PINF = "inf", NINF = "-inf";

    private Num() {}

    // ---- conversions ------------------------------------------------------
    private static Object parse(Value v) {
        if (v instanceof IntValue) return BigDecimal.valueOf(((IntValue) v).val);
        String s = ((StringValue) v).val.toString();
        Object o = CACHE.get(s);
        if (o == null) {
            if (s.equals("NaN")) o = NAN;
            else if (s.equals("inf")) o = PINF;
            else if (s.equals("-inf")) o = NINF;
            else o = new BigDecimal(s);
            if (CACHE.size() > 400000) CACHE.clear();
            CACHE.put(s, o);
        }
        return o;
    }

    private static double dbl(Object o) {
        if (o == NAN) return Double.NaN;
        if (o == PINF) return Double.POSITIVE_INFINITY;
        if (o == NINF) return Double.NEGATIVE_INFINITY;
        return ((BigDecimal) o).doubleValue();
    }

    private static boolean fin(Object a) { return a instanceof BigDecimal; }
    private static boolean fin(Object a, Object b) { return a instanceof BigDecimal && b instanceof BigDecimal; }

    private static StringValue str(String s) { return new StringValue(s); }

    private static StringValue out(BigDecimal d) {
        d = d.round(MC);
        if (d.signum() == 0) return str("0");
        d = d.stripTrailingZeros();
        int sc = d.scale();
        return str((sc <= 0 && sc > -25) ? d.toPlainString() : (sc > 0 && d.precision() - sc > -8) ? d.toPlainString() : d.toString());
    }

    private static StringValue out(double d) {
        if (Double.isNaN(d)) return str("NaN");
        if (d == Double.POSITIVE_INFINITY) return str("inf");
        if (d == Double.NEGATIVE_INFINITY) return str("-inf");
        return out(new BigDecimal(d));
    }

    private static BoolValue bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    // ---- field operations -------------------------------------------------
    @TLAPlusOperator(identifier = "Canon", module = "Num", warn = false)
    public static Value canon(Value a) {
        Object x = parse(a);
        return fin(x) ? out((BigDecimal) x) : str((String) x);
    }

    @TLAPlusOperator(identifier = "Add", module = "Num", warn = false)
    public static Value add(Value a, Value b) {
        Object x = parse(a), y = parse(b);
        return fin(x, y) ? out(((BigDecimal) x).add((BigDecimal) y, MC)) : out(dbl(x) + dbl(y));
    }

    @TLAPlusOperator(identifier = "Sub", module = "Num", warn = false)
    public static Value sub(Value a, Value b) {
        Object x = parse(a), y = parse(b);
        return fin(x, y) ? out(((BigDecimal) x).subtract((BigDecimal) y, MC)) : out(dbl(x) - dbl(y));
    }

    @TLAPlusOperator(identifier = "Mul", module = "Num", warn = false)
    public static Value mul(Value a, Value b) {
        Object x = parse(a), y = parse(b);
        return fin(x, y) ? out(((BigDecimal) x).multiply((BigDecimal) y, MC)) : out(dbl(x) * dbl(y));
    }

    @TLAPlusOperator(identifier = "Div", module = "Num", warn = false)
    public static Value div(Value a, Value b) {
        Object x = parse(a), y = parse(b);
        if (fin(x, y)) {
            BigDecimal p = (BigDecimal) x, q = (BigDecimal) y;
            if (q.signum() == 0) {
                return str(p.signum() == 0 ? "NaN" : p.signum() > 0 ? "inf" : "-inf");
            }
            return out(p.divide(q, MC));
        }
        return out(dbl(x) / dbl(y));
    }

    @TLAPlusOperator(identifier = "Sqrt", module = "Num", warn = false)
    public static Value sqrt(Value a) {
        Object x = parse(a);
        if (fin(x)) return ((BigDecimal) x).signum() < 0 ? str("NaN") : out(((BigDecimal) x).sqrt(MC));
        return out(Math.sqrt(dbl(x)));
    }

    @TLAPlusOperator(identifier = "PowN", module = "Num", warn = false)
    public static Value pow(Value a, Value n) {
        Object x = parse(a);
        int k = ((IntValue) n).val;
        if (fin(x)) return k == 0 ? str("1") : out(((BigDecimal) x).pow(k, MC));
        return out(Math.pow(dbl(x), k));
    }

    // ---- order ------------------------------------------------------------
    @TLAPlusOperator(identifier = "Lt", module = "Num", warn = false)
    public static Value lt(Value a, Value b) {
        Object x = parse(a), y = parse(b);
        return bool(fin(x, y) ? ((BigDecimal) x).compareTo((BigDecimal) y) < 0 : dbl(x) < dbl(y));
    }

    @TLAPlusOperator(identifier = "Le", module = "Num", warn = false)
    public static Value le(Value a, Value b) {
        Object x = parse(a), y = parse(b);
        return bool(fin(x, y) ? ((BigDecimal) x).compareTo((BigDecimal) y) <= 0 : dbl(x) <= dbl(y));
    }

    @TLAPlusOperator(identifier = "IsFinite", module = "Num", warn = false)
    public static Value isFinite(Value a) { return bool(fin(parse(a))); }

    // ---- integers ---------------------------------------------------------
    @TLAPlusOperator(identifier = "FloorN", module = "Num", warn = false)
    public static Value floor(Value a) {
        return out(((BigDecimal) parse(a)).setScale(0, RoundingMode.FLOOR));
    }

    @TLAPlusOperator(identifier = "ModN", module = "Num", warn = false)
    public static Value mod(Value a, Value b) {
        BigInteger x = ((BigDecimal) parse(a)).toBigIntegerExact(), y = ((BigDecimal) parse(b)).toBigIntegerExact();
        return out(new BigDecimal(x.mod(y)));
    }

    @TLAPlusOperator(identifier = "ToInt", module = "Num", warn = false)
    public static Value toInt(Value a) {
        return IntValue.gen(((BigDecimal) parse(a)).intValueExact());
    }

    @TLAPlusOperator(identifier = "OfInt", module = "Num", warn = false)
    public static Value ofInt(Value i) {
        return out(BigDecimal.valueOf(((IntValue) i).val));
    }

    private static final ConcurrentHashMap<String, Value> MEMO = new ConcurrentHashMap<>();
    private static Value memo(String f, Value a) {
        String key = f + ((StringValue) a).val;
        Value v = MEMO.get(key);
        if (v == null) {
            v = f.equals("exp") ? exp_(a) : f.equals("cos") ? cos_(a) : ln_(a);
            if (MEMO.size() > 200000) MEMO.clear();
            MEMO.put(key, v);
        }
        return v;
    }

    // ---- transcendental functions ------------------------------------------
    @TLAPlusOperator(identifier = "Exp", module = "Num", warn = false)
    public static Value exp(Value a) {
        return memo("exp", a);
    }

    private static Value exp_(Value a) {
        Object x = parse(a);
        return fin(x) ? out(expBig((BigDecimal) x)) : out(Math.exp(dbl(x)));
    }

    private static BigDecimal expBig(BigDecimal x) {
        if (x.signum() == 0) return BigDecimal.ONE;
        if (x.compareTo(BigDecimal.valueOf(-2000)) < 0) return BigDecimal.ZERO;   // below the f64 range
        if (x.compareTo(BigDecimal.valueOf(2000)) > 0) throw new ArithmeticException("Exp out of range: " + x);
        int k = 0;                                                                // argument reduction by halving
        BigDecimal r = x;
        while (r.abs().compareTo(new BigDecimal("0.01")) > 0) { r = r.divide(TWO, WIDE); k++; }
        BigDecimal sum = BigDecimal.ONE, term = BigDecimal.ONE;
        for (int n = 1; n < 60; n++) {
            term = term.multiply(r, WIDE).divide(BigDecimal.valueOf(n), WIDE);
            if (term.signum() == 0 || term.precision() - term.scale() < -95) break;
            sum = sum.add(term, WIDE);
        }
        for (int i = 0; i < k; i++) sum = sum.multiply(sum, WIDE);
        return sum;
    }

    @TLAPlusOperator(identifier = "Cos", module = "Num", warn = false)
    public static Value cos(Value a) {
        return memo("cos", a);
    }

    private static Value cos_(Value a) {
        Object x = parse(a);
        if (!fin(x)) return str("NaN");
        BigDecimal tau = PI.multiply(TWO);
        BigDecimal r = ((BigDecimal) x).subtract(((BigDecimal) x).divide(tau, WIDE).setScale(0, RoundingMode.FLOOR).multiply(tau), WIDE);
        BigDecimal sum = BigDecimal.ONE, term = BigDecimal.ONE, r2 = r.multiply(r, WIDE);
        for (int n = 1; n < 80; n++) {
            term = term.multiply(r2, WIDE).divide(BigDecimal.valueOf((long) (2 * n - 1) * (2 * n)), WIDE).negate();
            if (term.signum() == 0 || term.precision() - term.scale() < -95) break;
            sum = sum.add(term, WIDE);
        }
        return out(sum);
    }

    @TLAPlusOperator(identifier = "Ln", module = "Num", warn = false)
    public static Value ln(Value a) {
        return memo("ln", a);
    }

    private static Value ln_(Value a) {
        Object x = parse(a);
        if (!fin(x)) return out(Math.log(dbl(x)));
        BigDecimal v = (BigDecimal) x;
        if (v.signum() <= 0) return str(v.signum() == 0 ? "-inf" : "NaN");
        BigDecimal y = new BigDecimal(Math.log(v.doubleValue()));                 // Newton on exp(y) = v
        for (int i = 0; i < 4; i++) {
            BigDecimal e = expBig(y);
            y = y.add(v.subtract(e, WIDE).multiply(TWO, WIDE).divide(v.add(e, WIDE), WIDE), WIDE);
        }
        return out(y);
    }

    @TLAPlusOperator(identifier = "Pi", module = "Num", warn = false)
    public static Value pi() { return out(PI); }
    // ---- derived operators, overridden for speed only (Num.tla defines them) --
    private static Object neg(Object x) { return fin(x) ? ((BigDecimal) x).negate() : x == PINF ? NINF : x == NINF ? PINF : NAN; }

    @TLAPlusOperator(identifier = "Neg", module = "Num", warn = false)
    public static Value negate(Value a) { Object x = neg(parse(a)); return fin(x) ? out((BigDecimal) x) : str((String) x); }

    @TLAPlusOperator(identifier = "Abs", module = "Num", warn = false)
    public static Value abs(Value a) {
        Object x = parse(a);
        return fin(x) ? out(((BigDecimal) x).abs()) : str(x == NAN ? "NaN" : "inf");
    }

    @TLAPlusOperator(identifier = "Close", module = "Num", warn = false)
    public static Value close(Value a, Value b, Value scale) {
        Object x = parse(a), y = parse(b), s = parse(scale);
        if (!fin(x, y)) return bool(x == y);
        if (!fin(s)) return bool(true);
        BigDecimal m = ((BigDecimal) y).abs().max((BigDecimal) s);
        BigDecimal tol = m.multiply(new BigDecimal("1e-9"), MC).add(new BigDecimal("1e-290"), MC);
        return bool(((BigDecimal) x).subtract((BigDecimal) y, MC).abs().compareTo(tol) <= 0);
    }

    private static Value[] elems(Value s) { return ((tlc2.value.impl.TupleValue) s.toTuple()).elems; }

    @TLAPlusOperator(identifier = "SumN", module = "Num", warn = false)
    public static Value sum(Value s) {
        BigDecimal acc = BigDecimal.ZERO; double sp = 0; boolean special = false;
        for (Value v : elems(s)) {
            Object x = parse(v);
            if (!fin(x)) special = true; else acc = acc.add((BigDecimal) x, MC);
            sp += dbl(x);
        }
        return special ? out(sp) : out(acc);
    }

    /** Evaluates a function at all arguments at once (TLC would do so again at every application). */
    @TLAPlusOperator(identifier = "Strict", module = "Num", warn = false)
    public static Value strict(Value f) {
        Value t = f.toTuple();
        if (t == null) t = f.toFcnRcd();
        return t == null ? f : t;
    }

    /** MkFun of Features.tla: the function mapping ks[j] to vs[j], the last j if several agree. */
    @TLAPlusOperator(identifier = "MkFun", module = "Features", warn = false)
    public static Value mkFun(Value ks, Value vs) {
        Value[] k = elems(ks), v = elems(vs);
        java.util.TreeMap<Integer, Value> m = new java.util.TreeMap<>();
        for (int j = 0; j < k.length; j++) m.put(((IntValue) k[j]).val, v[j]);
        Value[] dom = new Value[m.size()], val = new Value[m.size()];
        int i = 0;
        for (java.util.Map.Entry<Integer, Value> e : m.entrySet()) { dom[i] = IntValue.gen(e.getKey()); val[i++] = e.getValue(); }
        return new tlc2.value.impl.FcnRcdValue(dom, val, true);
    }

    /** ListOf of Features.tla: the values of a function, in some (here: ascending) order of its domain. */
    @TLAPlusOperator(identifier = "ListOf", module = "Features", warn = false)
    public static Value listOf(Value a) {
        tlc2.value.impl.FcnRcdValue f = (tlc2.value.impl.FcnRcdValue) a.toFcnRcd();
        f.normalize();
        return new tlc2.value.impl.TupleValue(f.values);
    }

    @TLAPlusOperator(identifier = "MaxAbs", module = "Num", warn = false)
    public static Value maxAbs(Value s) {
        BigDecimal acc = BigDecimal.ZERO;
        for (Value v : elems(s)) {
            Object x = parse(v);
            if (x == NAN) return str("NaN");
            if (!fin(x)) return str("inf");
            acc = acc.max(((BigDecimal) x).abs());
        }
        return out(acc);
    }
}
