import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Evaluation of the operators of spec/Ed25519.tla (extended coordinates instead of affine ones). */
public final class EdOverrides {
    static final BigInteger ONE = BigInteger.ONE, ZERO = BigInteger.ZERO, TWO = BigInteger.TWO;
    static final BigInteger P = TWO.pow(255).subtract(BigInteger.valueOf(19));
    static final BigInteger D = BigInteger.valueOf(-121665).mod(P).multiply(BigInteger.valueOf(121666).modInverse(P)).mod(P);
    static final BigInteger D2 = D.add(D).mod(P);
    static final BigInteger I = TWO.modPow(P.subtract(ONE).shiftRight(2), P);
    static final BigInteger M255 = TWO.pow(255);

    static BigInteger m(BigInteger a, BigInteger b) { return a.multiply(b).mod(P); }
    /** X, Y, Z, T */
    static BigInteger[] ext(BigInteger x, BigInteger y) { return new BigInteger[] {x, y, ONE, m(x, y)}; }
    static BigInteger[] add(BigInteger[] p, BigInteger[] q) {
        BigInteger a = m(p[1].subtract(p[0]), q[1].subtract(q[0])), b = m(p[1].add(p[0]), q[1].add(q[0]));
        BigInteger c = m(m(p[3], D2), q[3]), d = m(p[2].shiftLeft(1), q[2]);
        BigInteger e = b.subtract(a), f = d.subtract(c), g = d.add(c), h = b.add(a);
        return new BigInteger[] {m(e, f), m(g, h), m(f, g), m(e, h)};
    }
    static final ConcurrentHashMap<String, BigInteger[]> CACHE = new ConcurrentHashMap<>();
    static final BigInteger[] BAD = new BigInteger[0];
    static BigInteger[] dec(String h) {
        BigInteger[] r = CACHE.get(h);
        if (r == null) {
            r = dec0(h);
            if (CACHE.size() > 200000) CACHE.clear();
            CACHE.put(h, r);
        }
        return r;
    }
    static BigInteger[] dec0(String h) {
        if (h.length() != 64) return BAD;
        BigInteger raw = PrimOverrides.le(PrimOverrides.unhex(h));
        boolean sign = raw.testBit(255);
        BigInteger y = raw.mod(M255).mod(P), yy = m(y, y);
        BigInteger xx = m(yy.subtract(ONE), m(D, yy).add(ONE).modInverse(P));
        BigInteger x = xx.modPow(P.add(BigInteger.valueOf(3)).shiftRight(3), P);
        if (!m(x, x).equals(xx)) {
            x = m(x, I);
            if (!m(x, x).equals(xx)) return BAD;
        }
        if (x.testBit(0) != sign) x = P.subtract(x).mod(P);
        return ext(x, y);
    }
    static BigInteger[] pt(Value v) {
        BigInteger[] r = dec(PrimOverrides.str(v));
        if (r == BAD) throw new IllegalArgumentException("Ed25519: not a curve point: " + v);
        return r;
    }
    static String enc(BigInteger[] p) {
        BigInteger zi = p[2].modInverse(P), x = m(p[0], zi), y = m(p[1], zi);
        byte[] b = PrimOverrides.toLe(y, 32);
        if (x.testBit(0)) b[31] |= (byte) 0x80;
        String h = PrimOverrides.hex(b);
        if (CACHE.size() < 200000) CACHE.put(h, ext(x, y));
        return h;
    }
    @TLAPlusOperator(identifier = "EdDecodes", module = "Ed25519", warn = false)
    public static Value decodes(Value h) { return dec(PrimOverrides.str(h)) == BAD ? BoolValue.ValFalse : BoolValue.ValTrue; }
    @TLAPlusOperator(identifier = "EdNorm", module = "Ed25519", warn = false)
    public static Value norm(Value h) { return PrimOverrides.sv(enc(pt(h))); }
    @TLAPlusOperator(identifier = "EdAdd", module = "Ed25519", warn = false)
    public static Value eadd(Value h, Value k) { return PrimOverrides.sv(enc(add(pt(h), pt(k)))); }
    @TLAPlusOperator(identifier = "EdNeg", module = "Ed25519", warn = false)
    public static Value neg(Value h) { BigInteger[] p = pt(h); return PrimOverrides.sv(enc(ext(P.subtract(p[0]).mod(P), p[1]))); }
    static BigInteger[] mul(BigInteger s, BigInteger[] p) {
        BigInteger[] r = ext(ZERO, ONE);
        for (int k = s.bitLength() - 1; k >= 0; k--) { r = add(r, r); if (s.testBit(k)) r = add(r, p); }
        return r;
    }
    @TLAPlusOperator(identifier = "EdMul", module = "Ed25519", warn = false)
    public static Value emul(Value s, Value h) { return PrimOverrides.sv(enc(mul(PrimOverrides.n(s), pt(h)))); }
    @TLAPlusOperator(identifier = "EdCanonical", module = "Ed25519", warn = false)
    public static Value canon(Value h) {
        String x = PrimOverrides.str(h);
        return x.length() == 64 && PrimOverrides.le(PrimOverrides.unhex(x)).mod(M255).compareTo(P) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    @TLAPlusOperator(identifier = "EdSmallOrder", module = "Ed25519", warn = false)
    public static Value small(Value h) {
        BigInteger[] r = mul(BigInteger.valueOf(8), pt(h));
        return r[0].signum() == 0 && r[1].equals(r[2]) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
}
