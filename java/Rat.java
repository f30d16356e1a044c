import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.ArrayList;
import java.util.Arrays;
import tlc2.value.impl.*;
import util.UniqueString;

/**
 * TLC implementation of the operators declared in specs/Rat.tla: exact rationals of unbounded size, written as
 * strings "n" or "n/d" in lowest terms, and "undef".  Irrational functions are computed to about 40 digits
 * (distribution functions to double precision).  Every operator is strict: "undef" in, "undef" out.
 */
public class Rat {
    static final MathContext MC = new MathContext(50);
    static final BigDecimal PI = new BigDecimal("3.14159265358979323846264338327950288419716939937510582097494459");
    static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO;

    static final class Q {
        final BigInteger n, d;
        Q(BigInteger n, BigInteger d) {
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            BigInteger g = n.gcd(d);
            if (!g.equals(ONE)) { n = n.divide(g); d = d.divide(g); }
            this.n = n; this.d = d;
        }
        Q add(Q o) { return new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d)); }
        Q sub(Q o) { return new Q(n.multiply(o.d).subtract(o.n.multiply(d)), d.multiply(o.d)); }
        Q mul(Q o) { return new Q(n.multiply(o.n), d.multiply(o.d)); }
        Q div(Q o) { return o.n.signum() == 0 ? null : new Q(n.multiply(o.d), d.multiply(o.n)); }
        Q neg() { return new Q(n.negate(), d); }
        Q abs() { return n.signum() < 0 ? neg() : this; }
        int cmp(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
        BigInteger floor() {
            BigInteger[] qr = n.divideAndRemainder(d);
            return qr[1].signum() < 0 ? qr[0].subtract(ONE) : qr[0];
        }
        BigDecimal dec() { return new BigDecimal(n).divide(new BigDecimal(d), MC); }
        double dbl() { return dec().doubleValue(); }
        public String toString() { return d.equals(ONE) ? n.toString() : n + "/" + d; }
    }

    static Q q(long v) { return new Q(BigInteger.valueOf(v), ONE); }

    static Q parse(String s) {
        int k = s.indexOf('/');
        if (k >= 0) try {
            BigInteger d = new BigInteger(s.substring(k + 1));
            if (d.signum() == 0) return null;
            return new Q(new BigInteger(s.substring(0, k)), d);
        } catch (NumberFormatException e) {
            return null;
        }
        char c = s.isEmpty() ? 'x' : s.charAt(s.length() - 1);
        if (c < '0' || c > '9') return null;
        try {
            return fromDec(new BigDecimal(s));
        } catch (NumberFormatException e) {
            return null;
        }
    }

    static Q fromDec(BigDecimal b) {
        if (b.signum() == 0) return q(0);
        return b.scale() <= 0 ? new Q(b.unscaledValue().multiply(BigInteger.TEN.pow(-b.scale())), ONE)
                              : new Q(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
    }

    static Q get(Value v) {
        if (v instanceof IntValue) return q(((IntValue) v).val);
        if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
        return null;
    }

    static Value put(Q q) { return new StringValue(UniqueString.uniqueStringOf(q == null ? "undef" : q.toString())); }
    static Value putD(double d) { return Double.isNaN(d) || Double.isInfinite(d) ? put(null) : put(fromDec(new BigDecimal(d))); }
    static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static Q[] seq(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        Q[] r = new Q[t.elems.length];
        for (int i = 0; i < r.length; i++) r[i] = get(t.elems[i]);
        return r;
    }
    static boolean anyNull(Q... a) { for (Q x : a) if (x == null) return true; return false; }

    public static Value RNorm(Value a) { return put(get(a)); }
    public static Value RDefined(Value a) { return bool(get(a) != null); }
    public static Value RAdd(Value a, Value b) { Q x = get(a), y = get(b); return put(x == null || y == null ? null : x.add(y)); }
    public static Value RSub(Value a, Value b) { Q x = get(a), y = get(b); return put(x == null || y == null ? null : x.sub(y)); }
    public static Value RMul(Value a, Value b) { Q x = get(a), y = get(b); return put(x == null || y == null ? null : x.mul(y)); }
    public static Value RDiv(Value a, Value b) { Q x = get(a), y = get(b); return put(x == null || y == null ? null : x.div(y)); }
    public static Value RNeg(Value a) { Q x = get(a); return put(x == null ? null : x.neg()); }
    public static Value RAbs(Value a) { Q x = get(a); return put(x == null ? null : x.abs()); }
    public static Value RSgn(Value a) { Q x = get(a); return put(x == null ? null : q(x.n.signum())); }
    public static Value RMin(Value a, Value b) { Q x = get(a), y = get(b); return put(x == null || y == null ? null : x.cmp(y) <= 0 ? x : y); }
    public static Value RMax(Value a, Value b) { Q x = get(a), y = get(b); return put(x == null || y == null ? null : x.cmp(y) >= 0 ? x : y); }
    public static Value RLt(Value a, Value b) { Q x = get(a), y = get(b); return bool(x != null && y != null && x.cmp(y) < 0); }
    public static Value RLeq(Value a, Value b) { Q x = get(a), y = get(b); return bool(x != null && y != null && x.cmp(y) <= 0); }
    public static Value REq(Value a, Value b) { Q x = get(a), y = get(b); return bool(x != null && y != null && x.cmp(y) == 0); }
    public static Value RFloor(Value a) { Q x = get(a); return put(x == null ? null : new Q(x.floor(), ONE)); }
    public static Value RToInt(Value a) {
        Q x = get(a);
        if (x == null || !x.d.equals(ONE) || x.n.bitLength() > 31) throw new RuntimeException("RToInt: not a small integer: " + a);
        return IntValue.gen(x.n.intValue());
    }
    public static Value RIsInt(Value a) { Q x = get(a); return bool(x != null && x.d.equals(ONE)); }
    public static Value RPow(Value a, Value k) {
        Q x = get(a); int e = ((IntValue) k).val;
        if (x == null) return put(null);
        Q r = q(1);
        for (int i = 0; i < Math.abs(e); i++) r = r.mul(x);
        return put(e >= 0 ? r : q(1).div(r));
    }
    public static Value RHalfUp(Value a, Value k) {
        Q x = get(a); int e = ((IntValue) k).val;
        if (x == null) return put(null);
        Q p = new Q(BigInteger.TEN.pow(e), ONE);
        return put(new Q(x.mul(p).add(new Q(ONE, BigInteger.TWO)).floor(), p.n));
    }
    public static Value RSum(Value s) {
        Q r = q(0);
        for (Q x : seq(s)) { if (x == null) return put(null); r = r.add(x); }
        return put(r);
    }
    public static Value RDot(Value a, Value b) {
        Q[] x = seq(a), y = seq(b); Q r = q(0);
        for (int i = 0; i < x.length; i++) { if (x[i] == null || y[i] == null) return put(null); r = r.add(x[i].mul(y[i])); }
        return put(r);
    }
    /** ascending; undefined entries are dropped */
    public static Value RSort(Value s) {
        ArrayList<Q> l = new ArrayList<>();
        for (Q x : seq(s)) if (x != null) l.add(x);
        l.sort((x, y) -> x.cmp(y));
        Value[] r = new Value[l.size()];
        for (int i = 0; i < r.length; i++) r[i] = put(l.get(i));
        return new TupleValue(r);
    }
    /** |a-b| <= abs + rel*max(|a|,|b|) */
    public static Value RNear(Value a, Value b, Value abs, Value rel) {
        Q x = get(a), y = get(b), t = get(abs), r = get(rel);
        if (anyNull(x, y, t, r)) return bool(false);
        Q m = x.abs().cmp(y.abs()) >= 0 ? x.abs() : y.abs();
        return bool(x.sub(y).abs().cmp(t.add(r.mul(m))) <= 0);
    }

    // ---- irrational functions -------------------------------------------------------------------------------
    static Q sqrt(Q x) {
        if (x == null || x.n.signum() < 0) return null;
        BigInteger[] a = x.n.sqrtAndRemainder(), b = x.d.sqrtAndRemainder();
        if (a[1].signum() == 0 && b[1].signum() == 0) return new Q(a[0], b[0]);
        return fromDec(x.dec().sqrt(MC));
    }
    public static Value RSqrt(Value a) { return put(sqrt(get(a))); }

    static BigDecimal ln(BigDecimal x) {
        // reduce to [2/3, 4/3] by powers of two, then 2*atanh((x-1)/(x+1))
        int k = 0;
        BigDecimal two = BigDecimal.valueOf(2), hi = new BigDecimal("1.4"), lo = new BigDecimal("0.7");
        while (x.compareTo(hi) > 0) { x = x.divide(two, MC); k++; }
        while (x.compareTo(lo) < 0) { x = x.multiply(two, MC); k--; }
        BigDecimal r = atanhSeries(x);
        return k == 0 ? r : r.add(LN2.multiply(BigDecimal.valueOf(k), MC), MC);
    }
    static BigDecimal atanhSeries(BigDecimal x) {
        BigDecimal z = x.subtract(BigDecimal.ONE, MC).divide(x.add(BigDecimal.ONE, MC), MC), z2 = z.multiply(z, MC), p = z, s = z;
        for (int i = 3; i < 200; i += 2) {
            p = p.multiply(z2, MC);
            if (p.signum() == 0) break;
            BigDecimal t = p.divide(BigDecimal.valueOf(i), MC);
            s = s.add(t, MC);
            if (s.signum() != 0 && t.precision() - t.scale() < s.precision() - s.scale() - 52) break;
        }
        return s.multiply(BigDecimal.valueOf(2), MC);
    }
    static final BigDecimal LN2 = new BigDecimal("0.693147180559945309417232121458176568075500134360255254120680009");
    public static Value RLn(Value a) {
        Q x = get(a);
        return put(x == null || x.n.signum() <= 0 ? null : x.cmp(q(1)) == 0 ? q(0) : fromDec(ln(x.dec())));
    }
    public static Value RExp(Value a) {
        Q x = get(a);
        if (x == null) return put(null);
        BigDecimal v = x.dec();
        int k = 0;
        while (v.abs().compareTo(new BigDecimal("0.5")) > 0) { v = v.divide(BigDecimal.valueOf(2), MC); k++; }
        BigDecimal t = BigDecimal.ONE, s = BigDecimal.ONE;
        for (int i = 1; i < 60; i++) { t = t.multiply(v, MC).divide(BigDecimal.valueOf(i), MC); s = s.add(t, MC); }
        for (; k > 0; k--) s = s.multiply(s, MC);
        return put(fromDec(s));
    }

    static BigDecimal atan(BigDecimal x) {
        int k = 0;
        while (x.abs().compareTo(new BigDecimal("0.05")) > 0) {
            x = x.divide(BigDecimal.ONE.add(BigDecimal.ONE.add(x.multiply(x, MC)).sqrt(MC)), MC);
            k++;
        }
        BigDecimal x2 = x.multiply(x, MC), p = x, s = x;
        for (int i = 3; i < 100; i += 2) {
            p = p.multiply(x2, MC).negate();
            if (p.signum() == 0) break;
            s = s.add(p.divide(BigDecimal.valueOf(i), MC), MC);
        }
        for (; k > 0; k--) s = s.multiply(BigDecimal.valueOf(2));
        return s;
    }
    /** angle of the vector (x, y) from the x axis, in degrees, in (-180, 180]; undef for the zero vector */
    public static Value RAtan2Deg(Value yv, Value xv) {
        Q y = get(yv), x = get(xv);
        if (anyNull(x, y)) return put(null);
        int sx = x.n.signum(), sy = y.n.signum();
        if (sx == 0 && sy == 0) return put(null);
        if (sy == 0) return put(q(sx > 0 ? 0 : 180));
        if (sx == 0) return put(q(sy > 0 ? 90 : -90));
        if (x.abs().cmp(y.abs()) == 0) return put(q(sx > 0 ? (sy > 0 ? 45 : -45) : (sy > 0 ? 135 : -135)));
        BigDecimal d = atan(y.div(x).dec()).multiply(BigDecimal.valueOf(180)).divide(PI, MC);
        if (sx < 0) d = sy > 0 ? d.add(BigDecimal.valueOf(180)) : d.subtract(BigDecimal.valueOf(180));
        return put(fromDec(d));
    }
    static BigDecimal sin(BigDecimal x) {
        BigDecimal x2 = x.multiply(x, MC).negate(), t = x, s = x;
        for (int i = 2; i < 90; i += 2) { t = t.multiply(x2, MC).divide(BigDecimal.valueOf((long) i * (i + 1)), MC); s = s.add(t, MC); }
        return s;
    }
    static BigDecimal cos(BigDecimal x) {
        BigDecimal x2 = x.multiply(x, MC).negate(), t = BigDecimal.ONE, s = t;
        for (int i = 1; i < 90; i += 2) { t = t.multiply(x2, MC).divide(BigDecimal.valueOf((long) i * (i + 1)), MC); s = s.add(t, MC); }
        return s;
    }
    static Q trig(Q deg, boolean isSin) {
        if (deg == null) return null;
        Q full = q(360);
        deg = deg.sub(full.mul(new Q(deg.div(full).floor(), ONE)));   // [0,360)
        if (!isSin) { deg = deg.add(q(90)); if (deg.cmp(full) >= 0) deg = deg.sub(full); }
        int sgn = 1;
        if (deg.cmp(q(180)) >= 0) { deg = deg.sub(q(180)); sgn = -1; }
        if (deg.cmp(q(90)) > 0) deg = q(180).sub(deg);
        Q r;
        if (deg.n.signum() == 0) r = q(0);
        else if (deg.cmp(q(90)) == 0) r = q(1);
        else if (deg.cmp(q(30)) == 0) r = new Q(ONE, BigInteger.TWO);
        else r = fromDec(sin(deg.dec().multiply(PI, MC).divide(BigDecimal.valueOf(180), MC)));
        return sgn > 0 ? r : r.neg();
    }
    public static Value RSinDeg(Value a) { return put(trig(get(a), true)); }
    public static Value RCosDeg(Value a) { return put(trig(get(a), false)); }
    public static Value RPi() { return put(fromDec(PI)); }

    // ---- distribution functions (double precision) ----------------------------------------------------------
    static double lgamma(double x) {
        double s = 0;
        while (x < 30) { s -= Math.log(x); x += 1; }
        double i = 1 / x, i2 = i * i;
        return s + (x - 0.5) * Math.log(x) - x + 0.91893853320467274178 + i * (1.0 / 12 - i2 * (1.0 / 360 - i2 * (1.0 / 1260 - i2 * (1.0 / 1680 - i2 / 1188.0))));
    }
    static double betacf(double a, double b, double x) {
        double tiny = 1e-300, qab = a + b, qap = a + 1, qam = a - 1, c = 1, d = 1 - qab * x / qap;
        if (Math.abs(d) < tiny) d = tiny;
        d = 1 / d;
        double h = d;
        for (int m = 1; m < 100000; m++) {
            int m2 = 2 * m;
            double aa = m * (b - m) * x / ((qam + m2) * (a + m2));
            d = 1 + aa * d; if (Math.abs(d) < tiny) d = tiny;
            c = 1 + aa / c; if (Math.abs(c) < tiny) c = tiny;
            d = 1 / d; h *= d * c;
            aa = -(a + m) * (qab + m) * x / ((a + m2) * (qap + m2));
            d = 1 + aa * d; if (Math.abs(d) < tiny) d = tiny;
            c = 1 + aa / c; if (Math.abs(c) < tiny) c = tiny;
            d = 1 / d;
            double del = d * c;
            h *= del;
            if (Math.abs(del - 1) < 1e-16) break;
        }
        return h;
    }
    static double ibeta(double a, double b, double x) {
        if (x <= 0) return 0;
        if (x >= 1) return 1;
        double bt = Math.exp(lgamma(a + b) - lgamma(a) - lgamma(b) + a * Math.log(x) + b * Math.log1p(-x));
        return x < (a + 1) / (a + b + 2) ? bt * betacf(a, b, x) / a : 1 - bt * betacf(b, a, 1 - x) / b;
    }
    /** P(|T| > |t|) for Student's t with df degrees of freedom */
    static double tTwoSided(double t, double df) { return ibeta(df / 2, 0.5, df / (df + t * t)); }
    static double tcdf(double t, double df) { double p = tTwoSided(t, df) / 2; return t <= 0 ? p : 1 - p; }
    public static Value RTTwoSided(Value t, Value df) { Q x = get(t), d = get(df); return anyNull(x, d) || d.n.signum() <= 0 ? put(null) : putD(tTwoSided(x.dbl(), d.dbl())); }
    public static Value RTCdf(Value t, Value df) { Q x = get(t), d = get(df); return anyNull(x, d) || d.n.signum() <= 0 ? put(null) : putD(tcdf(x.dbl(), d.dbl())); }
    public static Value RTQuantile(Value p, Value df) {
        Q x = get(p), d = get(df);
        if (anyNull(x, d) || d.n.signum() <= 0 || x.n.signum() <= 0 || x.cmp(q(1)) >= 0) return put(null);
        double pp = x.dbl(), dd = d.dbl();
        boolean neg = pp < 0.5;
        double tail = neg ? pp : q(1).sub(x).dbl();      // upper tail probability
        double lo = 0, hi = 1;
        while (tTwoSided(hi, dd) / 2 > tail && hi < 1e300) hi *= 2;
        for (int i = 0; i < 400; i++) { double m = (lo + hi) / 2; if (m == lo || m == hi) break; if (tTwoSided(m, dd) / 2 > tail) lo = m; else hi = m; }
        double r = (lo + hi) / 2;
        return putD(neg ? -r : r);
    }
    /** P(Z <= z), standard normal, via the incomplete gamma function */
    static double ncdf(double z) {
        double x = z * z / 2, a = 0.5, up;
        if (x == 0) return 0.5;
        if (x < 1.5) {
            double s = 1 / a, t = s;
            for (int n = 1; n < 1000; n++) { t *= x / (a + n); s += t; if (t < s * 1e-17) break; }
            up = 1 - s * Math.exp(-x + a * Math.log(x) - lgamma(a));
        } else {
            double tiny = 1e-300, b = x + 1 - a, c = 1 / tiny, d = 1 / b, h = d;
            for (int i = 1; i < 100000; i++) {
                double an = -i * (i - a);
                b += 2;
                d = an * d + b; if (Math.abs(d) < tiny) d = tiny;
                c = b + an / c; if (Math.abs(c) < tiny) c = tiny;
                d = 1 / d;
                double del = d * c;
                h *= del;
                if (Math.abs(del - 1) < 1e-16) break;
            }
            up = Math.exp(-x + a * Math.log(x) - lgamma(a)) * h;
        }
        return z > 0 ? 1 - up / 2 : up / 2;
    }
    public static Value RNormCdf(Value z) { Q x = get(z); return x == null ? put(null) : putD(ncdf(x.dbl())); }

    /** principal branch of the Lambert W function for a >= 0 */
    public static Value RLambertW(Value a) {
        Q x = get(a);
        if (x == null || x.n.signum() < 0) return put(null);
        double v = x.dbl(), w = Math.log1p(v);
        for (int i = 0; i < 200; i++) {
            double e = Math.exp(w), f = w * e - v, d = f / (e * (w + 1) - (w + 2) * f / (2 * w + 2));
            w -= d;
            if (Math.abs(d) <= 1e-16 * Math.abs(w)) break;
        }
        return putD(w);
    }

    // ---- text helpers ---------------------------------------------------------------------------------------
    static String str(Value v) { return ((StringValue) v).val.toString(); }
    /** the characters of a string, as one-character strings */
    public static Value SChars(Value s) {
        String t = str(s);
        Value[] r = new Value[t.length()];
        for (int i = 0; i < r.length; i++) r[i] = new StringValue(UniqueString.uniqueStringOf(t.substring(i, i + 1)));
        return new TupleValue(r);
    }
    /** strict lexicographic order by code point */
    public static Value SLess(Value a, Value b) { return bool(str(a).compareTo(str(b)) < 0); }
    public static Value SSplit(Value s, Value sep) {
        String t = str(s), p = str(sep);
        ArrayList<Value> l = new ArrayList<>();
        int i = 0, k;
        while ((k = t.indexOf(p, i)) >= 0) { l.add(new StringValue(UniqueString.uniqueStringOf(t.substring(i, k)))); i = k + p.length(); }
        l.add(new StringValue(UniqueString.uniqueStringOf(t.substring(i))));
        return new TupleValue(l.toArray(new Value[0]));
    }
}
