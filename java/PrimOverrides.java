import java.math.BigInteger;
import java.security.MessageDigest;
import javax.crypto.Cipher;
import javax.crypto.Mac;
import javax.crypto.spec.GCMParameterSpec;
import javax.crypto.spec.SecretKeySpec;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** TLC evaluation of spec/Prim.tla and of the heavy operators of spec/Ed25519.tla. */
public final class PrimOverrides {
    private static final char[] HEX = "0123456789abcdef".toCharArray();

    static String str(Value v) {
        if (v instanceof StringValue) return ((StringValue) v).val.toString();
        throw new IllegalArgumentException("Prim: expected a string, got " + v);
    }
    static BigInteger n(Value v) { return new BigInteger(str(v)); }
    static int i(Value v) { return ((IntValue) v).val; }
    static Value sv(String x) { return new StringValue(x); }
    static Value sv(BigInteger x) { return new StringValue(x.toString()); }
    static byte[] b(Value v) { return unhex(str(v)); }
    static byte[] unhex(String h) {
        byte[] r = new byte[h.length() / 2];
        for (int k = 0; k < r.length; k++)
            r[k] = (byte) ((Character.digit(h.charAt(2 * k), 16) << 4) | Character.digit(h.charAt(2 * k + 1), 16));
        return r;
    }
    static String hex(byte[] x) {
        char[] c = new char[x.length * 2];
        for (int k = 0; k < x.length; k++) { c[2*k] = HEX[(x[k] >> 4) & 15]; c[2*k+1] = HEX[x[k] & 15]; }
        return new String(c);
    }
    static Value hv(byte[] x) { return sv(hex(x)); }
    static byte[] rev(byte[] x) { byte[] r = new byte[x.length]; for (int k = 0; k < x.length; k++) r[k] = x[x.length-1-k]; return r; }
    static BigInteger le(byte[] x) { return new BigInteger(1, rev(x)); }
    static byte[] toLe(BigInteger a, int len) {
        byte[] be = a.toByteArray(); byte[] r = new byte[len];
        for (int k = 0; k < len && k < be.length; k++) r[k] = be[be.length - 1 - k];
        return r;
    }

    @TLAPlusOperator(identifier = "Strict", module = "Prim", warn = false)
    public static Value strict(Value v) {
        Value t = v instanceof FcnLambdaValue ? v.toTuple() : null;
        if (t == null && v instanceof FcnLambdaValue) t = v.toFcnRcd();
        if (t == null) t = v;
        t.deepNormalize();
        return t;
    }
    @TLAPlusOperator(identifier = "BNat", module = "Prim", warn = false)
    public static Value bnat(Value a) { return sv(Integer.toString(i(a))); }
    @TLAPlusOperator(identifier = "BInt", module = "Prim", warn = false)
    public static Value bint(Value a) { return IntValue.gen(n(a).intValueExact()); }
    @TLAPlusOperator(identifier = "BAdd", module = "Prim", warn = false)
    public static Value badd(Value a, Value b, Value m) { return sv(n(a).add(n(b)).mod(n(m))); }
    @TLAPlusOperator(identifier = "BSub", module = "Prim", warn = false)
    public static Value bsub(Value a, Value b, Value m) { return sv(n(a).subtract(n(b)).mod(n(m))); }
    @TLAPlusOperator(identifier = "BMul", module = "Prim", warn = false)
    public static Value bmul(Value a, Value b, Value m) { return sv(n(a).multiply(n(b)).mod(n(m))); }
    @TLAPlusOperator(identifier = "BInv", module = "Prim", warn = false)
    public static Value binv(Value a, Value m) {
        BigInteger x = n(a), q = n(m);
        return x.gcd(q).equals(BigInteger.ONE) ? sv(x.modInverse(q)) : sv("0");
    }
    @TLAPlusOperator(identifier = "BPow", module = "Prim", warn = false)
    public static Value bpow(Value a, Value e, Value m) { return sv(n(a).modPow(n(e), n(m))); }
    @TLAPlusOperator(identifier = "BMod", module = "Prim", warn = false)
    public static Value bmod(Value a, Value m) { return sv(n(a).mod(n(m))); }
    @TLAPlusOperator(identifier = "BDiv", module = "Prim", warn = false)
    public static Value bdiv(Value a, Value m) { return sv(n(a).divide(n(m))); }
    @TLAPlusOperator(identifier = "BSum", module = "Prim", warn = false)
    public static Value bsum(Value a, Value b) { return sv(n(a).add(n(b))); }
    @TLAPlusOperator(identifier = "BProd", module = "Prim", warn = false)
    public static Value bprod(Value a, Value b) { return sv(n(a).multiply(n(b))); }
    @TLAPlusOperator(identifier = "BCmp", module = "Prim", warn = false)
    public static Value bcmp(Value a, Value b) { return IntValue.gen(n(a).compareTo(n(b))); }

    @TLAPlusOperator(identifier = "HLen", module = "Prim", warn = false)
    public static Value hlen(Value h) { return IntValue.gen(str(h).length() / 2); }
    @TLAPlusOperator(identifier = "HSub", module = "Prim", warn = false)
    public static Value hsub(Value h, Value i, Value j) {
        String x = str(h); int a = 2 * i(i), e = Math.min(2 * i(j), x.length());
        return sv(a >= e ? "" : x.substring(a, e));
    }
    @TLAPlusOperator(identifier = "HByte", module = "Prim", warn = false)
    public static Value hbyte(Value h, Value i) { return IntValue.gen(b(h)[i(i)] & 255); }
    @TLAPlusOperator(identifier = "HRep", module = "Prim", warn = false)
    public static Value hrep(Value h, Value n) { return sv(str(h).repeat(i(n))); }
    @TLAPlusOperator(identifier = "HRev", module = "Prim", warn = false)
    public static Value hrev(Value h) { return hv(rev(b(h))); }
    @TLAPlusOperator(identifier = "BLe", module = "Prim", warn = false)
    public static Value ble(Value h) { return sv(le(b(h))); }
    @TLAPlusOperator(identifier = "BBe", module = "Prim", warn = false)
    public static Value bbe(Value h) { return sv(new BigInteger(1, b(h))); }
    @TLAPlusOperator(identifier = "HLe", module = "Prim", warn = false)
    public static Value hle(Value a, Value n) { return hv(toLe(n(a), i(n))); }
    @TLAPlusOperator(identifier = "HBe", module = "Prim", warn = false)
    public static Value hbe(Value a, Value n) { return hv(rev(toLe(n(a), i(n)))); }
    @TLAPlusOperator(identifier = "HBits", module = "Prim", warn = false)
    public static Value hbits(Value h, Value i) { int k = i(i); return IntValue.gen((b(h)[k / 8] >> (k % 8)) & 1); }
    @TLAPlusOperator(identifier = "HXor", module = "Prim", warn = false)
    public static Value hxor(Value a, Value c) {
        byte[] x = b(a), y = b(c); byte[] r = new byte[Math.min(x.length, y.length)];
        for (int k = 0; k < r.length; k++) r[k] = (byte) (x[k] ^ y[k]);
        return hv(r);
    }

    static byte[] dig(String alg, byte[] x) {
        try { return MessageDigest.getInstance(alg).digest(x); } catch (Exception e) { throw new RuntimeException(e); }
    }
    static byte[] mac(String alg, byte[] k, byte[] x) {
        try {
            Mac m = Mac.getInstance(alg);
            m.init(new SecretKeySpec(k.length == 0 ? new byte[1] : k, alg));
            return m.doFinal(x);
        } catch (Exception e) { throw new RuntimeException(e); }
    }
    @TLAPlusOperator(identifier = "Sha256", module = "Prim", warn = false)
    public static Value sha256(Value h) { return hv(dig("SHA-256", b(h))); }
    @TLAPlusOperator(identifier = "Sha512", module = "Prim", warn = false)
    public static Value sha512(Value h) { return hv(dig("SHA-512", b(h))); }
    @TLAPlusOperator(identifier = "HmacSha256", module = "Prim", warn = false)
    public static Value hm256(Value k, Value h) { return hv(mac("HmacSHA256", b(k), b(h))); }
    @TLAPlusOperator(identifier = "HmacSha512", module = "Prim", warn = false)
    public static Value hm512(Value k, Value h) { return hv(mac("HmacSHA512", b(k), b(h))); }
    @TLAPlusOperator(identifier = "AesGcmSeal", module = "Prim", warn = false)
    public static Value gcm(Value key, Value nonce, Value aad, Value pt) {
        try {
            Cipher c = Cipher.getInstance("AES/GCM/NoPadding");
            c.init(Cipher.ENCRYPT_MODE, new SecretKeySpec(b(key), "AES"), new GCMParameterSpec(128, b(nonce)));
            c.updateAAD(b(aad));
            return hv(c.doFinal(b(pt)));
        } catch (Exception e) { throw new RuntimeException(e); }
    }

    // ---------------------------------------------------------------- BLAKE3
    static final int[] IV = {0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19};
    static final int[] PERM = {2, 6, 3, 10, 7, 0, 4, 13, 1, 11, 12, 5, 9, 14, 15, 8};
    static void g(int[] s, int a, int b, int c, int d, int x, int y) {
        s[a] = s[a] + s[b] + x; s[d] = Integer.rotateRight(s[d] ^ s[a], 16);
        s[c] = s[c] + s[d]; s[b] = Integer.rotateRight(s[b] ^ s[c], 12);
        s[a] = s[a] + s[b] + y; s[d] = Integer.rotateRight(s[d] ^ s[a], 8);
        s[c] = s[c] + s[d]; s[b] = Integer.rotateRight(s[b] ^ s[c], 7);
    }
    static int[] compress(int[] cv, int[] m, long ctr, int len, int flags) {
        int[] s = new int[16];
        System.arraycopy(cv, 0, s, 0, 8); System.arraycopy(IV, 0, s, 8, 4);
        s[12] = (int) ctr; s[13] = (int) (ctr >>> 32); s[14] = len; s[15] = flags;
        int[] w = m.clone();
        for (int r = 0; r < 7; r++) {
            g(s,0,4,8,12,w[0],w[1]); g(s,1,5,9,13,w[2],w[3]); g(s,2,6,10,14,w[4],w[5]); g(s,3,7,11,15,w[6],w[7]);
            g(s,0,5,10,15,w[8],w[9]); g(s,1,6,11,12,w[10],w[11]); g(s,2,7,8,13,w[12],w[13]); g(s,3,4,9,14,w[14],w[15]);
            int[] p = new int[16]; for (int k = 0; k < 16; k++) p[k] = w[PERM[k]]; w = p;
        }
        int[] o = new int[16];
        for (int k = 0; k < 8; k++) { o[k] = s[k] ^ s[k + 8]; o[k + 8] = s[k + 8] ^ cv[k]; }
        return o;
    }
    static int[] words(byte[] x, int off, int len) {
        int[] w = new int[16];
        for (int k = 0; k < len; k++) w[k / 4] |= (x[off + k] & 255) << (8 * (k % 4));
        return w;
    }
    static final class Node { int[] cv, m; long ctr; int len, flags; int[] cv() { int[] o = compress(cv, m, ctr, len, flags), r = new int[8]; System.arraycopy(o,0,r,0,8); return r; } }
    static Node chunk(int[] key, byte[] x, int off, int len, long ctr, int fl) {
        int[] cv = key; int nb = Math.max(1, (len + 63) / 64);
        for (int k = 0; k < nb; k++) {
            int bl = Math.min(64, len - 64 * k); if (bl < 0) bl = 0;
            Node n = new Node(); n.cv = cv; n.m = words(x, off + 64 * k, bl); n.ctr = ctr; n.len = bl;
            n.flags = fl | (k == 0 ? 1 : 0) | (k == nb - 1 ? 2 : 0);
            if (k == nb - 1) return n;
            cv = n.cv();
        }
        return null;
    }
    static Node tree(int[] key, byte[] x, int off, int len, long ctr, int fl) {
        if (len <= 1024) return chunk(key, x, off, len, ctr, fl);
        int left = 1024; while (left * 2 < len) left *= 2;
        int[] l = tree(key, x, off, left, ctr, fl).cv(), r = tree(key, x, off + left, len - left, ctr + left / 1024, fl).cv();
        Node n = new Node(); n.cv = key; n.m = new int[16];
        System.arraycopy(l, 0, n.m, 0, 8); System.arraycopy(r, 0, n.m, 8, 8);
        n.ctr = 0; n.len = 64; n.flags = fl | 4; return n;
    }
    static byte[] blake3(byte[] key, byte[] in, int off, int len) {
        int[] k = IV; int fl = 0;
        if (key.length > 0) { k = new int[8]; System.arraycopy(words(key, 0, 32), 0, k, 0, 8); fl = 16; }
        Node n = tree(k, in, 0, in.length, 0, fl);
        byte[] r = new byte[len];
        long blk = -1; int[] o = null;
        for (int p = 0; p < len; p++) {
            long q = (long) (off + p) / 64; int w = (off + p) % 64;
            if (q != blk) { o = compress(n.cv, n.m, q, n.len, n.flags | 8); blk = q; }
            r[p] = (byte) (o[w / 4] >>> (8 * (w % 4)));
        }
        return r;
    }
    @TLAPlusOperator(identifier = "Blake3Xof", module = "Prim", warn = false)
    public static Value b3(Value key, Value in, Value off, Value len) { return hv(blake3(b(key), b(in), i(off), i(len))); }
}
