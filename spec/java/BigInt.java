// TLC module override for spec/BigInt.tla (same operators, computed with java.math.BigInteger).
import java.math.BigInteger;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

public class BigInt {
    private static BigInteger get(Value v) {
        TupleValue t = (TupleValue) v.toTuple();
        Value[] e = t.elems;
        int s = ((IntValue) e[0]).val;
        if (s == 0) return BigInteger.ZERO;
        // assemble the magnitude, 15 bits per limb
        int bits = (e.length - 1) * 15;
        byte[] be = new byte[bits / 8 + 2];
        for (int i = 1; i < e.length; ++i) {
            int l = ((IntValue) e[i]).val;
            if (l < 0 || l > 32767) throw new RuntimeException("bad limb " + l);
            int pos = (i - 1) * 15;
            int byteIx = pos >> 3, sh = pos & 7;
            int w = l << sh;
            int k = be.length - 1 - byteIx;
            be[k] |= (byte) w;
            be[k - 1] |= (byte) (w >> 8);
            if (k >= 2) be[k - 2] |= (byte) (w >> 16);
        }
        return new BigInteger(s, be);
    }
    private static final IntValue[] SMALL = new IntValue[32768];
    static { for (int i = 0; i < SMALL.length; ++i) SMALL[i] = IntValue.gen(i); }
    private static Value put(BigInteger b) {
        int s = b.signum();
        if (s == 0) return new TupleValue(new Value[] { IntValue.gen(0) });
        byte[] be = b.abs().toByteArray();
        int bits = b.abs().bitLength();
        int n = (bits + 14) / 15;
        Value[] e = new Value[n + 1];
        e[0] = IntValue.gen(s);
        for (int i = 0; i < n; ++i) {
            int pos = i * 15, byteIx = pos >> 3, sh = pos & 7, w = 0;
            for (int j = 2; j >= 0; --j) {
                int k = be.length - 1 - byteIx - j;
                w = (w << 8) | (k >= 0 ? (be[k] & 0xff) : 0);
            }
            e[i + 1] = SMALL[(w >> sh) & 32767];
        }
        return new TupleValue(e);
    }
    public static Value BAdd(Value a, Value b) { return put(get(a).add(get(b))); }
    public static Value BSub(Value a, Value b) { return put(get(a).subtract(get(b))); }
    public static Value BMul(Value a, Value b) { return put(get(a).multiply(get(b))); }
    public static Value BCmp(Value a, Value b) { return IntValue.gen(get(a).compareTo(get(b))); }
    public static Value BShl(Value a, Value n) { return put(get(a).shiftLeft(((IntValue) n).val)); }
}
