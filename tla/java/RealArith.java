// TLC operator overrides for module RealArith: exact rational arithmetic on
// numbers written as strings ("3", "-1/7", "0.125", "1e-9"), plus Exp, Ln and
// Sqrt to PREC significant digits.  Anything that is not a finite number
// ("NaN", "inf", ...) is kept as the string "NaN"; every comparison with it
// is FALSE.
import java.math.BigDecimal;
import java.math.BigInteger;
import java.math.MathContext;
import java.math.RoundingMode;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class RealArith {
    static final int PREC = 50;
    static final MathContext MC = new MathContext(PREC + 12, RoundingMode.HALF_EVEN);
    // results of more than MAXBITS bits are rounded to 100 significant digits
    static final int MAXBITS = 800;
    static final MathContext BIG = new MathContext(100, RoundingMode.HALF_EVEN);

    static final class Q implements Comparable<Q> {
        final BigInteger n, d; // d > 0, gcd = 1
        Q(BigInteger n, BigInteger d) {
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
            this.n = n; this.d = d;
        }
        static Q of(BigDecimal b) {
            if (b.signum() == 0) return ZERO;
            BigInteger u = b.unscaledValue();
            int s = b.scale();
            if (s >= 0) return new Q(u, BigInteger.TEN.pow(s));
            return new Q(u.multiply(BigInteger.TEN.pow(-s)), BigInteger.ONE);
        }
        BigDecimal dec(MathContext mc) { return new BigDecimal(n).divide(new BigDecimal(d), mc); }
        Q lim() {
            if (n.bitLength() + d.bitLength() <= MAXBITS) return this;
            return of(dec(BIG));
        }
        Q add(Q o) {
            if (d.equals(o.d)) return new Q(n.add(o.n), d);
            return new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
        }
        Q neg() { return new Q(n.negate(), d); }
        Q mul(Q o) { return new Q(n.multiply(o.n), d.multiply(o.d)); }
        Q div(Q o) { return new Q(n.multiply(o.d), d.multiply(o.n)); }
        public int compareTo(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
        public String toString() { return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d; }
    }

    static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE);
    static final Q ONE = new Q(BigInteger.ONE, BigInteger.ONE);
    static final Q NAN = new Q(BigInteger.ZERO, BigInteger.ONE);
    static final ConcurrentHashMap<String, Q> cache = new ConcurrentHashMap<>();
    static final StringValue NANV = new StringValue("NaN");

    static Q parse0(String s) {
        try {
            int k = s.indexOf('/');
            if (k >= 0) {
                BigInteger d = new BigInteger(s.substring(k + 1));
                if (d.signum() == 0) return NAN;
                return new Q(new BigInteger(s.substring(0, k)), d);
            }
            return Q.of(new BigDecimal(s));
        } catch (NumberFormatException e) {
            return NAN;
        }
    }

    static Q q(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
        if (!(v instanceof StringValue))
            throw new RuntimeException("RealArith: not a number: " + v);
        String s = ((StringValue) v).val.toString();
        Q r = cache.get(s);
        if (r == null) {
            r = parse0(s);
            if (cache.size() > 400000) cache.clear();
            cache.put(s, r);
        }
        return r;
    }

    static Value v(Q a) {
        if (a == NAN) return NANV;
        return new StringValue(a.lim().toString());
    }
    static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }

    static Value[] seq(Value s) {
        Value t = s.toTuple();
        if (t == null) throw new RuntimeException("RealArith: not a sequence: " + s);
        return ((TupleValue) t).elems;
    }

    public static Value IsReal(Value a) {
        if (a instanceof IntValue) return BoolValue.ValTrue;
        if (!(a instanceof StringValue)) return BoolValue.ValFalse;
        return b(q(a) != NAN);
    }
    public static Value RNorm(Value a) { return v(q(a)); }
    public static Value RAdd(Value x, Value y) { Q a = q(x), c = q(y); return a == NAN || c == NAN ? NANV : v(a.add(c)); }
    public static Value RSub(Value x, Value y) { Q a = q(x), c = q(y); return a == NAN || c == NAN ? NANV : v(a.add(c.neg())); }
    public static Value RMul(Value x, Value y) { Q a = q(x), c = q(y); return a == NAN || c == NAN ? NANV : v(a.mul(c)); }
    public static Value RDiv(Value x, Value y) {
        Q a = q(x), c = q(y);
        return a == NAN || c == NAN || c.n.signum() == 0 ? NANV : v(a.div(c));
    }
    public static Value RLe(Value x, Value y) { Q a = q(x), c = q(y); return b(a != NAN && c != NAN && a.compareTo(c) <= 0); }
    public static Value RLt(Value x, Value y) { Q a = q(x), c = q(y); return b(a != NAN && c != NAN && a.compareTo(c) < 0); }
    public static Value REq(Value x, Value y) { Q a = q(x), c = q(y); return b(a != NAN && c != NAN && a.compareTo(c) == 0); }
    public static Value RSum(Value s) {
        Q t = ZERO;
        for (Value e : seq(s)) { Q a = q(e); if (a == NAN) return NANV; t = t.add(a).lim(); }
        return v(t);
    }
    public static Value RPrefix(Value s) {
        Value[] a = seq(s);
        Value[] r = new Value[a.length];
        Q t = ZERO;
        for (int i = 0; i < a.length; i++) {
            Q x = q(a[i]);
            t = (t == NAN || x == NAN) ? NAN : t.add(x).lim();
            r[i] = t == NAN ? NANV : v(t);
        }
        return new TupleValue(r);
    }
    public static Value RDot(Value s, Value u) {
        Value[] a = seq(s), c = seq(u);
        if (a.length != c.length) throw new RuntimeException("RDot: lengths differ");
        Q t = ZERO;
        for (int i = 0; i < a.length; i++) {
            Q x = q(a[i]), y = q(c[i]);
            if (x == NAN || y == NAN) return NANV;
            t = t.add(x.mul(y)).lim();
        }
        return v(t);
    }

    // the vector operations, and RSeq, return evaluated tuples: TLC would
    // otherwise evaluate an entry again each time it is looked up
    public static Value RConst(Value c, Value n) {
        Value[] r = new Value[((IntValue) n).val];
        java.util.Arrays.fill(r, c);
        return new TupleValue(r);
    }
    public static Value RSeq(Value s) { return new TupleValue(seq(s)); }
    public static Value RScale(Value c, Value s) {
        Value[] a = seq(s), r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = RMul(c, a[i]);
        return new TupleValue(r);
    }
    public static Value RVAdd(Value s, Value u) {
        Value[] a = seq(s), c = seq(u), r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = RAdd(a[i], c[i]);
        return new TupleValue(r);
    }
    public static Value RVMul(Value s, Value u) {
        Value[] a = seq(s), c = seq(u), r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = RMul(a[i], c[i]);
        return new TupleValue(r);
    }

    public static Value RMaxOf(Value s) { return ext(s, 1); }
    public static Value RMinOf(Value s) { return ext(s, -1); }
    static Value ext(Value s, int sg) {
        Q t = null;
        for (Value e : seq(s)) {
            Q a = q(e);
            if (a == NAN) return NANV;
            if (t == null || a.compareTo(t) * sg > 0) t = a;
        }
        if (t == null) throw new RuntimeException("RMaxOf/RMinOf of an empty sequence");
        return v(t);
    }

    static BigDecimal exp(BigDecimal x) {
        if (x.signum() == 0) return BigDecimal.ONE;
        if (x.abs().compareTo(new BigDecimal(200000)) > 0) return null;
        int k = 0;
        BigDecimal y = x.round(MC);
        MathContext mc = new MathContext(PREC + 24, RoundingMode.HALF_EVEN);
        while (y.abs().compareTo(new BigDecimal("0.01")) > 0) { y = y.divide(BigDecimal.valueOf(2), mc); k++; }
        BigDecimal term = BigDecimal.ONE, sum = BigDecimal.ONE;
        BigDecimal eps = BigDecimal.ONE.scaleByPowerOfTen(-(PREC + 22));
        for (int i = 1; i < 200; i++) {
            term = term.multiply(y, mc).divide(BigDecimal.valueOf(i), mc);
            sum = sum.add(term, mc);
            if (term.abs().compareTo(eps) < 0) break;
        }
        for (int i = 0; i < k; i++) sum = sum.multiply(sum, mc);
        return sum.round(MC);
    }

    // ln of a positive rational
    static BigDecimal ln(Q a) {
        BigDecimal x = a.dec(new MathContext(PREC + 24, RoundingMode.HALF_EVEN));
        // x = m * 10^e with m in [0.1, 1)
        int e = x.precision() - x.scale();
        BigDecimal m = x.scaleByPowerOfTen(-e);
        BigDecimal r = lnm(m);
        if (e != 0) r = r.add(LN10().multiply(BigDecimal.valueOf(e)));
        return r.round(MC);
    }
    static BigDecimal ln10c = null;
    static synchronized BigDecimal LN10() {
        if (ln10c == null) ln10c = lnm(new BigDecimal("0.1")).negate();
        return ln10c;
    }
    static final BigDecimal TINY = BigDecimal.ONE.scaleByPowerOfTen(-30);
    static BigDecimal lnm(BigDecimal m) {
        MathContext mc = new MathContext(PREC + 24, RoundingMode.HALF_EVEN);
        BigDecimal y = new BigDecimal(Math.log(m.doubleValue()));
        for (int i = 0; i < 3; i++) {
            BigDecimal ey = exp(y);
            BigDecimal dlt = m.subtract(ey).multiply(BigDecimal.valueOf(2)).divide(m.add(ey), mc);
            y = y.add(dlt, mc);
            // each step triples the number of correct digits
            if (dlt.signum() == 0 || dlt.abs().compareTo(TINY) < 0) break;
        }
        return y;
    }

    static final MathContext OUT = new MathContext(PREC, RoundingMode.HALF_EVEN);
    public static Value RExp(Value x) {
        Q a = q(x);
        if (a == NAN) return NANV;
        BigDecimal r = exp(a.dec(MC));
        if (r == null) return a.n.signum() < 0 ? v(ZERO) : NANV;
        return v(Q.of(r.round(OUT)));
    }
    public static Value RLn(Value x) {
        Q a = q(x);
        if (a == NAN || a.n.signum() <= 0) return NANV;
        if (a.compareTo(ONE) == 0) return v(ZERO);
        return v(Q.of(ln(a).round(OUT)));
    }
    public static Value RSqrt(Value x) {
        Q a = q(x);
        if (a == NAN || a.n.signum() < 0) return NANV;
        BigInteger rn = a.n.sqrt(), rd = a.d.sqrt();
        if (rn.multiply(rn).equals(a.n) && rd.multiply(rd).equals(a.d)) return v(new Q(rn, rd));
        return v(Q.of(a.dec(MC).sqrt(MC).round(OUT)));
    }
    // largest integer <= x, and smallest integer >= x, as TLC integers
    public static Value RFloor(Value x) {
        Q a = q(x);
        BigInteger[] dr = a.n.divideAndRemainder(a.d);
        BigInteger r = dr[1].signum() < 0 ? dr[0].subtract(BigInteger.ONE) : dr[0];
        return r.bitLength() < 32 ? IntValue.gen(r.intValueExact()) : new StringValue(r.toString());
    }
    public static Value RInt(Value x) { Q a = q(x); return b(a != NAN && a.d.equals(BigInteger.ONE)); }
    // a short decimal rendering, for messages only
    public static Value RShow(Value x) {
        Q a = q(x);
        if (a == NAN) return NANV;
        return new StringValue(a.dec(new MathContext(12)).stripTrailingZeros().toString());
    }
}
