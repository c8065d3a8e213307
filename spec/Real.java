// Evaluator of spec/Real.tla: TLC picks up a class named after the module.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.Map;
import tlc2.value.impl.*;

public class Real {
    static final class Q {
        final BigInteger n, d; // d > 0, lowest terms; special: d == 0, n in {1,-1,0 (nan)}
        Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
        boolean special() { return d.signum() == 0; }
        boolean nan() { return special() && n.signum() == 0; }
        boolean inf() { return special() && n.signum() != 0; }
    }
    static final Q NAN = new Q(BigInteger.ZERO, BigInteger.ZERO);
    static final Q PINF = new Q(BigInteger.ONE, BigInteger.ZERO);
    static final Q NINF = new Q(BigInteger.ONE.negate(), BigInteger.ZERO);
    static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE);
    static final Q ONE = new Q(BigInteger.ONE, BigInteger.ONE);
    static final int MAXBITS = 4000;

    static Q mk(BigInteger n, BigInteger d) {
        if (d.signum() == 0) return n.signum() == 0 ? NAN : n.signum() > 0 ? PINF : NINF;
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        BigInteger g = n.gcd(d);
        if (!g.equals(BigInteger.ONE) && g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
        // very long results are rounded to about 1000 significant bits
        if (n.bitLength() + d.bitLength() > MAXBITS && n.signum() != 0) {
            int sh = 1000 - (n.bitLength() - d.bitLength());
            BigInteger nn = sh >= 0 ? n.shiftLeft(sh).divide(d) : n.divide(d.shiftLeft(-sh));
            if (sh >= 0) return mk(nn, BigInteger.ONE.shiftLeft(sh));
            return new Q(nn.shiftLeft(-sh), BigInteger.ONE);
        }
        return new Q(n, d);
    }
    static Q ofDouble(double x) {
        if (Double.isNaN(x)) return NAN;
        if (Double.isInfinite(x)) return x > 0 ? PINF : NINF;
        BigDecimal b = new BigDecimal(x);
        return ofBig(b);
    }
    static Q ofBig(BigDecimal b) {
        if (b.scale() <= 0) return mk(b.toBigIntegerExact(), BigInteger.ONE);
        return mk(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
    }
    static double dbl(Q q) {
        if (q.nan()) return Double.NaN;
        if (q.inf()) return q.n.signum() > 0 ? Double.POSITIVE_INFINITY : Double.NEGATIVE_INFINITY;
        if (q.n.signum() == 0) return 0;
        return new BigDecimal(q.n).divide(new BigDecimal(q.d), new MathContext(40)).doubleValue();
    }
    static final Map<String, Q> cache = java.util.Collections.synchronizedMap(
        new LinkedHashMap<String, Q>(1024, 0.75f, true) {
            protected boolean removeEldestEntry(Map.Entry<String, Q> e) { return size() > 200000; }
        });

    static Q parse(String s) {
        Q q = cache.get(s);
        if (q == null) { q = parse0(s); cache.put(s, q); }
        return q;
    }
    static Q parse0(String s) {
        s = s.trim();
        if (s.equals("inf") || s.equals("+inf")) return PINF;
        if (s.equals("-inf")) return NINF;
        if (s.equals("nan") || s.equals("-nan")) return NAN;
        int sl = s.indexOf('/');
        if (sl >= 0) return mk(new BigInteger(s.substring(0, sl)), new BigInteger(s.substring(sl + 1)));
        if (s.indexOf('x') >= 0 || s.indexOf('X') >= 0) return ofDouble(Double.parseDouble(s));
        return ofBig(new BigDecimal(s));
    }
    static Q q(Value v) {
        if (v instanceof IntValue) return mk(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
        if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
        throw new RuntimeException("Real: not a real: " + v);
    }
    static String str(Q q) {
        if (q.nan()) return "nan";
        if (q.inf()) return q.n.signum() > 0 ? "inf" : "-inf";
        return q.d.equals(BigInteger.ONE) ? q.n.toString() : q.n.toString() + "/" + q.d.toString();
    }
    static Value v(Q q) { return new StringValue(str(q)); }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static Q add(Q a, Q b) {
        if (a.nan() || b.nan()) return NAN;
        if (a.inf()) return b.inf() && a.n.signum() != b.n.signum() ? NAN : a;
        if (b.inf()) return b;
        return mk(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }
    static Q neg(Q a) { return a.special() ? (a.nan() ? NAN : a == PINF ? NINF : PINF) : new Q(a.n.negate(), a.d); }
    static Q mul(Q a, Q b) {
        if (a.nan() || b.nan()) return NAN;
        if (a.inf() || b.inf()) {
            int s = a.n.signum() * b.n.signum();
            return s == 0 ? NAN : s > 0 ? PINF : NINF;
        }
        return mk(a.n.multiply(b.n), a.d.multiply(b.d));
    }
    static Q div(Q a, Q b) {
        if (a.nan() || b.nan()) return NAN;
        if (a.inf()) return b.inf() ? NAN : (b.n.signum() < 0 ? neg(a) : a);
        if (b.inf()) return ZERO;
        return mk(a.n.multiply(b.d), a.d.multiply(b.n)); // x/0 -> +-inf or nan
    }
    static int cmp(Q a, Q b) { // no nan
        if (a.special() || b.special()) {
            int x = a.inf() ? a.n.signum() : 0, y = b.inf() ? b.n.signum() : 0;
            return Integer.compare(x, y);
        }
        return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
    }
    static boolean anynan(Q a, Q b) { return a.nan() || b.nan(); }
    static Q abs(Q a) { return a.n.signum() < 0 ? neg(a) : a; }
    static boolean same(Q a, Q b) { return a.nan() || b.nan() ? a.nan() && b.nan() : cmp(a, b) == 0; }
    static boolean tol(Q a, Q b, Q rel, Q abs_) {
        if (a.special() || b.special()) return same(a, b);
        Q d = abs(add(a, neg(b)));
        Q m = cmp(abs(a), abs(b)) >= 0 ? abs(a) : abs(b);
        return cmp(d, add(abs_, mul(rel, m))) <= 0;
    }
    static final Q TOL = mk(BigInteger.ONE, BigInteger.TEN.pow(9));

    static Value[] seq(Value s) {
        if (s instanceof TupleValue) return ((TupleValue) s).elems;
        Value t = s.toTuple();
        if (t == null) throw new RuntimeException("Real: not a sequence: " + s);
        return ((TupleValue) t).elems;
    }

    public static Value R(Value a) { return v(q(a)); }
    public static Value RAdd(Value a, Value b) { return v(add(q(a), q(b))); }
    public static Value RSub(Value a, Value b) { return v(add(q(a), neg(q(b)))); }
    public static Value RMul(Value a, Value b) { return v(mul(q(a), q(b))); }
    public static Value RDiv(Value a, Value b) { return v(div(q(a), q(b))); }
    public static Value RNeg(Value a) { return v(neg(q(a))); }
    public static Value RAbs(Value a) { return v(abs(q(a))); }
    public static Value RMin(Value a, Value b) { Q x = q(a), y = q(b); return v(anynan(x, y) ? NAN : cmp(x, y) <= 0 ? x : y); }
    public static Value RMax(Value a, Value b) { Q x = q(a), y = q(b); return v(anynan(x, y) ? NAN : cmp(x, y) >= 0 ? x : y); }
    public static Value RLt(Value a, Value b) { Q x = q(a), y = q(b); return b(!anynan(x, y) && cmp(x, y) < 0); }
    public static Value RLe(Value a, Value b) { Q x = q(a), y = q(b); return b(!anynan(x, y) && cmp(x, y) <= 0); }
    public static Value REq(Value a, Value b) { Q x = q(a), y = q(b); return b(!anynan(x, y) && cmp(x, y) == 0); }
    public static Value RSame(Value a, Value b) { return b(same(q(a), q(b))); }
    public static Value RIsFinite(Value a) { return b(!q(a).special()); }
    public static Value RFloor(Value a) {
        Q x = q(a);
        BigInteger[] r = x.n.divideAndRemainder(x.d);
        BigInteger f = r[1].signum() < 0 ? r[0].subtract(BigInteger.ONE) : r[0];
        return IntValue.gen(f.intValueExact());
    }
    public static Value RLn(Value a) { return v(ofDouble(Math.log(dbl(q(a))))); }
    public static Value RExp(Value a) { return v(ofDouble(Math.exp(dbl(q(a))))); }
    public static Value RSqrt(Value a) { return v(ofDouble(Math.sqrt(dbl(q(a))))); }
    public static Value RPow(Value a, Value b) { return v(ofDouble(Math.pow(dbl(q(a)), dbl(q(b))))); }
    static double erf(double x) {
        // series for |x| < 3, continued fraction of erfc beyond
        double ax = Math.abs(x);
        if (Double.isNaN(x)) return x;
        if (ax > 6) return x > 0 ? 1 : -1;
        if (ax < 3) {
            double t = x, sum = x;
            for (int n = 1; n < 200; n++) { t *= -x * x / n; double u = t / (2 * n + 1); sum += u; if (Math.abs(u) < 1e-19) break; }
            return 2 / Math.sqrt(Math.PI) * sum;
        }
        double f = 0;
        for (int k = 120; k >= 1; k--) f = (k / 2.0) / (ax + f);
        double c = Math.exp(-ax * ax) / Math.sqrt(Math.PI) / (ax + f);
        return x > 0 ? 1 - c : c - 1;
    }
    public static Value RErf(Value a) { return v(ofDouble(erf(dbl(q(a))))); }
    public static Value RGauss(Value x, Value m, Value s) {
        double X = dbl(q(x)), M = dbl(q(m)), S = dbl(q(s));
        double z = (X - M) / S;
        return v(ofDouble(Math.exp(-0.5 * z * z) / S / Math.sqrt(2 * Math.PI)));
    }
    public static Value RGaussCdf(Value x, Value m, Value s) {
        double X = dbl(q(x)), M = dbl(q(m)), S = dbl(q(s));
        return v(ofDouble(0.5 * (1 + erf((X - M) / S / Math.sqrt(2)))));
    }
    public static Value RSum(Value s) {
        Q t = ZERO;
        for (Value e : seq(s)) t = add(t, q(e));
        return v(t);
    }
    public static Value RDot(Value s, Value u) {
        Value[] x = seq(s), y = seq(u);
        if (x.length != y.length) throw new RuntimeException("RDot: lengths differ");
        Q t = ZERO;
        for (int i = 0; i < x.length; i++) t = add(t, mul(q(x[i]), q(y[i])));
        return v(t);
    }
    public static Value RTol(Value a, Value b, Value rel, Value ab) { return b(tol(q(a), q(b), q(rel), q(ab))); }
    public static Value RClose(Value a, Value b) { return b(tol(q(a), q(b), TOL, TOL)); }
    public static Value RVClose(Value s, Value u) {
        Value[] x = seq(s), y = seq(u);
        if (x.length != y.length) return b(false);
        for (int i = 0; i < x.length; i++) if (!tol(q(x[i]), q(y[i]), TOL, TOL)) return b(false);
        return b(true);
    }
    public static Value RVSame(Value s, Value u) {
        Value[] x = seq(s), y = seq(u);
        if (x.length != y.length) return b(false);
        for (int i = 0; i < x.length; i++) if (!same(q(x[i]), q(y[i]))) return b(false);
        return b(true);
    }
    interface Op { Q f(Q a, Q b); }
    static Value zip(Value s, Value u, Op f) {
        Value[] x = seq(s), y = seq(u);
        if (x.length != y.length) throw new RuntimeException("Real: lengths differ");
        Value[] r = new Value[x.length];
        for (int i = 0; i < x.length; i++) r[i] = v(f.f(q(x[i]), q(y[i])));
        return new TupleValue(r);
    }
    public static Value RScaleSeq(Value s, Value k) {
        Value[] x = seq(s);
        Q kk = q(k);
        Value[] r = new Value[x.length];
        for (int i = 0; i < x.length; i++) r[i] = v(mul(q(x[i]), kk));
        return new TupleValue(r);
    }
    public static Value RAddSeq(Value s, Value u) { return zip(s, u, Real::add); }
    public static Value RMulSeq(Value s, Value u) { return zip(s, u, Real::mul); }
    public static Value RDivSeq(Value s, Value u) { return zip(s, u, Real::div); }
    public static Value RDouble(Value a) { return v(ofDouble(dbl(q(a)))); }
    public static Value RFloat(Value a) { return v(ofDouble((double) (float) dbl(q(a)))); }
}
