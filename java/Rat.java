// TLC module override for spec/Rat.tla: exact rational arithmetic on strings "n" or "n/d".
import java.math.BigInteger;
import java.math.BigDecimal;
import java.math.MathContext;

import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class Rat {
    // ---- representation -------------------------------------------------------------
    static final class Q {
        final BigInteger n, d;

        Q(BigInteger n, BigInteger d) {
            if (d.signum() == 0) throw new ArithmeticException("Rat: division by zero");
            if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
            BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE) && g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
            this.n = n; this.d = d;
        }
        Q add(Q o) {
            if (d.equals(o.d)) return new Q(n.add(o.n), d);
            return new Q(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
        }
        Q neg() { return new Q(n.negate(), d); }
        Q mul(Q o) { return new Q(n.multiply(o.n), d.multiply(o.d)); }
        Q div(Q o) { return new Q(n.multiply(o.d), d.multiply(o.n)); }
        int cmp(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
        BigDecimal dec() { return new BigDecimal(n).divide(new BigDecimal(d), MC); }
        public String toString() { return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d; }
    }

    static final MathContext MC = new MathContext(60);

    static Q q(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
        if (!(v instanceof StringValue)) throw new RuntimeException("Rat: not a rational: " + v);
        String s = ((StringValue) v).val.toString();
        int i = s.indexOf('/');
        if (i < 0) return new Q(new BigInteger(s), BigInteger.ONE);
        return new Q(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
    }
    static Value v(Q q) { return new StringValue(q.toString()); }

    static Value[] seq(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        if (t == null) throw new RuntimeException("Rat: not a sequence: " + s);
        return t.elems;
    }

    // ---- overridden operators -------------------------------------------------------
    public static Value RAdd(Value a, Value b) { return v(q(a).add(q(b))); }
    public static Value RSub(Value a, Value b) { return v(q(a).add(q(b).neg())); }
    public static Value RMul(Value a, Value b) { return v(q(a).mul(q(b))); }
    public static Value RDiv(Value a, Value b) { return v(q(a).div(q(b))); }
    public static Value RLe(Value a, Value b) { return q(a).cmp(q(b)) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }

    public static Value RSum(Value s) {
        Q r = new Q(BigInteger.ZERO, BigInteger.ONE);
        for (Value x : seq(s)) r = r.add(q(x));
        return v(r);
    }
    public static Value RDot(Value a, Value b) {
        Value[] x = seq(a), y = seq(b);
        if (x.length != y.length) throw new RuntimeException("Rat: RDot of different lengths");
        Q r = new Q(BigInteger.ZERO, BigInteger.ONE);
        for (int i = 0; i < x.length; i++) r = r.add(q(x[i]).mul(q(y[i])));
        return v(r);
    }

    static final BigInteger SCALE = BigInteger.TEN.pow(30);

    static Q ofDec(BigDecimal d) {
        return new Q(d.multiply(new BigDecimal(SCALE)).toBigInteger(), SCALE);
    }

    // Approximations, to about 1e-30 absolute.
    public static Value RSqrt(Value a) {
        Q x = q(a);
        if (x.n.signum() < 0) throw new RuntimeException("Rat: RSqrt of a negative number " + x);
        return v(ofDec(x.dec().sqrt(MC)));
    }

    static BigDecimal ln(BigDecimal x) {
        // x = m * 2^k with m in [1/sqrt2, sqrt2]; ln m by atanh series.
        BigDecimal two = BigDecimal.valueOf(2);
        int k = 0;
        BigDecimal hi = new BigDecimal("1.4142135623730951"), lo = new BigDecimal("0.7071067811865475");
        while (x.compareTo(hi) > 0) { x = x.divide(two, MC); k++; }
        while (x.compareTo(lo) < 0) { x = x.multiply(two, MC); k--; }
        return atanh2(x).add(atanh2(two).multiply(BigDecimal.valueOf(k)), MC);
    }
    static BigDecimal atanh2(BigDecimal x) { // ln x = 2 atanh((x-1)/(x+1))
        BigDecimal t = x.subtract(BigDecimal.ONE).divide(x.add(BigDecimal.ONE), MC);
        BigDecimal t2 = t.multiply(t, MC), p = t, s = BigDecimal.ZERO;
        for (int i = 1; i < 400; i += 2) {
            s = s.add(p.divide(BigDecimal.valueOf(i), MC), MC);
            p = p.multiply(t2, MC);
            if (p.abs().compareTo(new BigDecimal("1e-60")) < 0) break;
        }
        return s.multiply(BigDecimal.valueOf(2), MC);
    }
    public static Value RLn(Value a) {
        Q x = q(a);
        if (x.n.signum() <= 0) throw new RuntimeException("Rat: RLn of a non-positive number " + x);
        return v(ofDec(ln(x.dec())));
    }
}
