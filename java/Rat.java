// TLC module override for Rat.tla: exact rational arithmetic on numerals kept
// as TLA+ strings "n" or "n/d" (canonical: gcd 1, d > 1).  Also reads "m:e",
// meaning m * 2^e, the exact form in which the recorders log binary floating
// point numbers.  See Rat.tla for the specification of every operator; the
// ASSUMEs of RatCheck.tla test this class against TLC's own integers.
import java.math.BigInteger;
import java.util.LinkedHashMap;
import java.util.Map;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

public class Rat {
    static final class Q {
        final BigInteger n, d;
        String s;
        Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
    }

    static Q norm(BigInteger n, BigInteger d) {
        int sg = d.signum();
        if (sg == 0) throw new ArithmeticException("Rat: division by zero");
        if (sg < 0) { n = n.negate(); d = d.negate(); }
        if (!d.equals(BigInteger.ONE)) {
            BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
        }
        return new Q(n, d);
    }

    private static final int CACHE = 1 << 16;
    private static final ThreadLocal<Map<String, Q>> cache = ThreadLocal.withInitial(
        () -> new LinkedHashMap<String, Q>(CACHE, 0.75f, false) {
            @Override protected boolean removeEldestEntry(Map.Entry<String, Q> e) {
                return size() > CACHE;
            }
        });

    static Q parse(String s) {
        int i = s.indexOf('/');
        if (i >= 0)
            return norm(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
        i = s.indexOf(':');
        if (i >= 0) {
            BigInteger m = new BigInteger(s.substring(0, i));
            int e = Integer.parseInt(s.substring(i + 1));
            return e >= 0 ? new Q(m.shiftLeft(e), BigInteger.ONE)
                          : norm(m, BigInteger.ONE.shiftLeft(-e));
        }
        return new Q(new BigInteger(s), BigInteger.ONE);
    }

    static Q get(Value v) {
        if (v instanceof IntValue) return new Q(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
        String s = ((StringValue) v).val.toString();
        Map<String, Q> c = cache.get();
        Q q = c.get(s);
        if (q == null) { q = parse(s); c.put(s, q); }
        return q;
    }

    static Value put(Q q) {
        String s = q.d.equals(BigInteger.ONE) ? q.n.toString() : q.n.toString() + "/" + q.d.toString();
        Map<String, Q> c = cache.get();
        if (!c.containsKey(s)) c.put(s, q);
        return new StringValue(s);
    }

    public static Value RatIsNum(Value v) {
        if (v instanceof IntValue) return BoolValue.ValTrue;
        if (!(v instanceof StringValue)) return BoolValue.ValFalse;
        try { parse(((StringValue) v).val.toString()); return BoolValue.ValTrue; }
        catch (RuntimeException e) { return BoolValue.ValFalse; }
    }
    public static Value RatNorm(Value a) { return put(get(a)); }
    public static Value RatOf(Value a, Value b) {
        return put(norm(BigInteger.valueOf(((IntValue) a).val), BigInteger.valueOf(((IntValue) b).val)));
    }
    public static Value RatAdd(Value a, Value b) {
        Q x = get(a), y = get(b);
        return put(norm(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d)));
    }
    public static Value RatSub(Value a, Value b) {
        Q x = get(a), y = get(b);
        return put(norm(x.n.multiply(y.d).subtract(y.n.multiply(x.d)), x.d.multiply(y.d)));
    }
    public static Value RatMul(Value a, Value b) {
        Q x = get(a), y = get(b);
        return put(norm(x.n.multiply(y.n), x.d.multiply(y.d)));
    }
    public static Value RatDiv(Value a, Value b) {
        Q x = get(a), y = get(b);
        return put(norm(x.n.multiply(y.d), x.d.multiply(y.n)));
    }
    public static Value RatAbs(Value a) { Q x = get(a); return put(new Q(x.n.abs(), x.d)); }
    static int cmp(Value a, Value b) {
        Q x = get(a), y = get(b);
        return x.n.multiply(y.d).compareTo(y.n.multiply(x.d));
    }
    public static Value RatLeq(Value a, Value b) { return cmp(a, b) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RatLt(Value a, Value b) { return cmp(a, b) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RatEq(Value a, Value b) { return cmp(a, b) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value RatFloor(Value a) {
        Q x = get(a);
        BigInteger[] qr = x.n.divideAndRemainder(x.d);
        BigInteger f = qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
        return put(new Q(f, BigInteger.ONE));
    }
    public static Value RatToInt(Value a) {
        Q x = get(a);
        if (!x.d.equals(BigInteger.ONE)) throw new ArithmeticException("RatToInt: not an integer");
        return IntValue.gen(x.n.intValueExact());
    }
    // Round to a multiple of 2^-k (ties away from zero): used to keep numerals
    // short where the specification itself allows an error.
    public static Value RatRound(Value a, Value k) {
        Q x = get(a);
        BigInteger sc = BigInteger.ONE.shiftLeft(((IntValue) k).val);
        BigInteger two = BigInteger.valueOf(2);
        BigInteger num = x.n.abs().multiply(sc).multiply(two).add(x.d);
        BigInteger r = num.divide(x.d.multiply(two));
        if (x.n.signum() < 0) r = r.negate();
        return put(norm(r, sc));
    }
}
