// TLC override of the R* operators of Exact.tla (same names, same meaning).
import java.math.BigInteger;
import tlc2.value.impl.*;

public class Exact {
    private static final int BITS = 15;
    private static final int MASK = (1 << BITS) - 1;
    private static final Value[] SMALL = new Value[MASK + 1];
    static { for (int i = 0; i <= MASK; i++) SMALL[i] = IntValue.gen(i); }

    static final class Q {
        final BigInteger n, d;
        Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
    }
    static Q mk(BigInteger n, BigInteger d) {
        if (d.signum() == 0) throw new RuntimeException("Exact: division by zero");
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (n.signum() == 0) return new Q(BigInteger.ZERO, BigInteger.ONE);
        // fast path: strip common powers of two first
        int z = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
        if (z > 0) { n = n.shiftRight(z); d = d.shiftRight(z); }
        if (d.bitLength() > 1 && d.getLowestSetBit() != d.bitLength() - 1 ) {
            BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
        }
        return new Q(n, d);
    }
    static BigInteger nat(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        int k = t.elems.length;
        if (k == 0) return BigInteger.ZERO;
        if (k <= 4) {
            long r = 0;
            for (int i = k - 1; i >= 0; i--) r = (r << BITS) | ((IntValue) t.elems[i]).val;
            return BigInteger.valueOf(r);
        }
        byte[] b = new byte[(k * BITS + 7) / 8 + 1]; // big endian
        for (int i = 0; i < k; i++) {
            int l = ((IntValue) t.elems[i]).val;
            int bit = i * BITS;
            long x = ((long) l) << (bit & 7);
            int byteIdx = b.length - 1 - (bit >> 3);
            b[byteIdx] |= (byte) x;
            if (byteIdx - 1 >= 0) b[byteIdx - 1] |= (byte) (x >> 8);
            if (byteIdx - 2 >= 0) b[byteIdx - 2] |= (byte) (x >> 16);
        }
        return new BigInteger(b);
    }
    static Value nat(BigInteger n) {
        int k = (n.bitLength() + BITS - 1) / BITS;
        Value[] e = new Value[k];
        if (n.bitLength() <= 62) {
            long r = n.longValue();
            for (int i = 0; i < k; i++) { e[i] = SMALL[(int) (r & MASK)]; r >>>= BITS; }
        } else {
            byte[] b = n.toByteArray();
            for (int i = 0; i < k; i++) {
                int bit = i * BITS;
                int p = b.length - 1 - (bit >> 3);
                int x = (b[p] & 255);
                if (p - 1 >= 0) x |= (b[p - 1] & 255) << 8;
                if (p - 2 >= 0) x |= (b[p - 2] & 255) << 16;
                e[i] = SMALL[(x >> (bit & 7)) & MASK];
            }
        }
        return new TupleValue(e);
    }
    static Q in(Value v) {
        Value[] e = ((TupleValue) v.toTuple()).elems;
        int s = ((IntValue) e[0]).val;
        BigInteger n = nat(e[1]);
        return new Q(s < 0 ? n.negate() : n, nat(e[2]));
    }
    static Value out(Q q) {
        return new TupleValue(new Value[] { IntValue.gen(q.n.signum()), nat(q.n.abs()), nat(q.d) });
    }
    static int i(Value v) { return ((IntValue) v).val; }

    public static Value RInt(Value v) { return out(new Q(BigInteger.valueOf(i(v)), BigInteger.ONE)); }
    public static Value RPow2(Value v) {
        int k = i(v);
        return k >= 0 ? out(new Q(BigInteger.ONE.shiftLeft(k), BigInteger.ONE))
                      : out(new Q(BigInteger.ONE, BigInteger.ONE.shiftLeft(-k)));
    }
    public static Value RAdd(Value a, Value b) { return out(add(in(a), in(b))); }
    public static Value RSub(Value a, Value b) {
        Q y = in(b); return out(add(in(a), new Q(y.n.negate(), y.d)));
    }
    static Q add(Q x, Q y) {
        if (x.d.equals(y.d)) return mk(x.n.add(y.n), x.d);
        return mk(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d));
    }
    public static Value RMul(Value a, Value b) {
        Q x = in(a), y = in(b); return out(mk(x.n.multiply(y.n), x.d.multiply(y.d)));
    }
    public static Value RDiv(Value a, Value b) {
        Q x = in(a), y = in(b); return out(mk(x.n.multiply(y.d), x.d.multiply(y.n)));
    }
    public static Value RCmp(Value a, Value b) {
        Q x = in(a), y = in(b);
        return IntValue.gen(x.n.multiply(y.d).compareTo(y.n.multiply(x.d)));
    }
    static BigInteger floorDiv(BigInteger n, BigInteger d) {
        BigInteger[] qr = n.divideAndRemainder(d);
        return qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
    }
    public static Value RFloor2(Value a, Value k) {
        Q x = in(a);
        return out(mk(floorDiv(x.n.shiftLeft(i(k)), x.d), BigInteger.ONE.shiftLeft(i(k))));
    }
    public static Value RSqrt2(Value a, Value k) {
        Q x = in(a);
        if (x.n.signum() < 0) throw new RuntimeException("Exact: square root of a negative number");
        return out(mk(x.n.shiftLeft(2 * i(k)).divide(x.d).sqrt(), BigInteger.ONE.shiftLeft(i(k))));
    }
    public static Value RFloorInt(Value a) {
        Q x = in(a); return IntValue.gen(floorDiv(x.n, x.d).intValueExact());
    }
    public static Value RLog2(Value a) {
        Q x = in(a);
        BigInteger n = x.n.abs();
        int e = n.bitLength() - x.d.bitLength();
        BigInteger l = e >= 0 ? x.d.shiftLeft(e) : x.d, r = e >= 0 ? n : n.shiftLeft(-e);
        return IntValue.gen(r.compareTo(l) >= 0 ? e : e - 1);
    }
    public static Value RStr(Value a) {
        Q x = in(a);
        java.math.BigDecimal d = new java.math.BigDecimal(x.n).divide(new java.math.BigDecimal(x.d),
            new java.math.MathContext(20));
        return new StringValue(d.toString());
    }
}
