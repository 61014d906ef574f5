package verif;

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * java.math.BigInteger implementations of the operators of BigInt.tla. The values stay plain
 * TLA+ tuples <<sign, limb, limb, ...>> in base 2^15, so overridden and plain definitions mix.
 */
public class BigIntOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] { BigIntOverrides.class };
    }

    private static final class Big extends TupleValue {
        final transient BigInteger b;
        Big(final Value[] e, final BigInteger b) { super(e); this.b = b; }
    }

    private static final IntValue[] LIMB = new IntValue[32768];
    static { for (int i = 0; i < LIMB.length; i++) LIMB[i] = IntValue.gen(i); }
    private static final IntValue[] SIGN = { IntValue.gen(-1), IntValue.gen(0), IntValue.gen(1) };

    static BigInteger dec(final Value v) {
        if (v instanceof Big) return ((Big) v).b;
        final Value[] e = ((TupleValue) v.toTuple()).elems;
        final int s = ((IntValue) e[0]).val;
        final int n = e.length - 1;
        if (s == 0) {
            if (n != 0) throw new RuntimeException("BigInt: zero with limbs");
            return BigInteger.ZERO;
        }
        if (n == 0 || (s != 1 && s != -1)) throw new RuntimeException("BigInt: malformed " + v);
        final byte[] mag = new byte[(15 * n) / 8 + 2];
        int bit = 0;
        for (int i = 1; i <= n; i++) {
            final int d = ((IntValue) e[i]).val;
            if (d < 0 || d > 32767) throw new RuntimeException("BigInt: bad limb " + d);
            int by = bit >> 3;
            int x = d << (bit & 7);
            while (x != 0) {
                mag[mag.length - 1 - by] |= (byte) x;
                x >>>= 8;
                by++;
            }
            bit += 15;
        }
        return new BigInteger(s, mag);
    }

    static Value enc(final BigInteger b) {
        final int s = b.signum();
        if (s == 0) return new Big(new Value[] { SIGN[1] }, b);
        final byte[] mag = b.abs().toByteArray();
        final int bits = b.abs().bitLength();
        final int n = (bits + 14) / 15;
        final Value[] e = new Value[n + 1];
        e[0] = SIGN[s + 1];
        for (int i = 0; i < n; i++) {
            int bit = 15 * i;
            int by = bit >> 3;
            int x = 0;
            for (int k = 0; k < 3; k++) {
                final int p = mag.length - 1 - by - k;
                if (p >= 0) x |= (mag[p] & 0xff) << (8 * k);
            }
            e[i + 1] = LIMB[(x >> (bit & 7)) & 32767];
        }
        return new Big(e, b);
    }

    private static int n(final Value v) { return ((IntValue) v).val; }

    private static BigInteger shr(final BigInteger a, final int n) {
        return a.signum() < 0 ? a.negate().shiftRight(15 * n).negate() : a.shiftRight(15 * n);
    }

    @TLAPlusOperator(identifier = "BFromInt", module = "BigInt", warn = false)
    public static Value bFromInt(final Value a) { return enc(BigInteger.valueOf(n(a))); }

    @TLAPlusOperator(identifier = "BNeg", module = "BigInt", warn = false)
    public static Value bNeg(final Value a) { return enc(dec(a).negate()); }

    @TLAPlusOperator(identifier = "BAbs", module = "BigInt", warn = false)
    public static Value bAbs(final Value a) { return enc(dec(a).abs()); }

    @TLAPlusOperator(identifier = "BAdd", module = "BigInt", warn = false)
    public static Value bAdd(final Value a, final Value b) { return enc(dec(a).add(dec(b))); }

    @TLAPlusOperator(identifier = "BSub", module = "BigInt", warn = false)
    public static Value bSub(final Value a, final Value b) { return enc(dec(a).subtract(dec(b))); }

    @TLAPlusOperator(identifier = "BMul", module = "BigInt", warn = false)
    public static Value bMul(final Value a, final Value b) { return enc(dec(a).multiply(dec(b))); }

    @TLAPlusOperator(identifier = "BCmp", module = "BigInt", warn = false)
    public static Value bCmp(final Value a, final Value b) { return IntValue.gen(dec(a).compareTo(dec(b))); }

    @TLAPlusOperator(identifier = "BQuo", module = "BigInt", warn = false)
    public static Value bQuo(final Value a, final Value b) { return enc(dec(a).divide(dec(b))); }

    @TLAPlusOperator(identifier = "BShr", module = "BigInt", warn = false)
    public static Value bShr(final Value a, final Value k) { return enc(shr(dec(a), n(k))); }

    @TLAPlusOperator(identifier = "BShl", module = "BigInt", warn = false)
    public static Value bShl(final Value a, final Value k) { return enc(dec(a).shiftLeft(15 * n(k))); }

    @TLAPlusOperator(identifier = "BSqrt", module = "BigInt", warn = false)
    public static Value bSqrt(final Value a) { return enc(dec(a).sqrt()); }

    @TLAPlusOperator(identifier = "BMulShr", module = "BigInt", warn = false)
    public static Value bMulShr(final Value a, final Value b, final Value k) {
        return enc(shr(dec(a).multiply(dec(b)), n(k)));
    }

    @TLAPlusOperator(identifier = "BShlQuo", module = "BigInt", warn = false)
    public static Value bShlQuo(final Value a, final Value b, final Value k) {
        return enc(dec(a).shiftLeft(15 * n(k)).divide(dec(b)));
    }
}
