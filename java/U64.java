// TLC module override for U64.tla: unsigned 64-bit numbers as 16 hex digits.
import tlc2.value.impl.*;
import java.math.BigInteger;

public class U64 {
    private static final BigInteger MAX = BigInteger.ONE.shiftLeft(64);

    private static BigInteger in(Value v) {
        String s = ((StringValue) v).getVal().toString();
        if (s.length() != 16) throw new RuntimeException("not a 64-bit number: " + s);
        return new BigInteger(s, 16);
    }

    private static Value out(BigInteger b) {
        if (b.signum() < 0 || b.compareTo(MAX) >= 0) return new StringValue("overflow");
        String s = b.toString(16);
        StringBuilder o = new StringBuilder();
        for (int i = s.length(); i < 16; i++) o.append('0');
        return new StringValue(o.append(s).toString());
    }

    private static boolean over(Value v) { return v.toString().equals("\"overflow\""); }
    private static final Value OVER = new StringValue("overflow");

    private static int n(Value v) { return ((IntValue) v).val; }

    public static Value UOf(final Value a) { return out(BigInteger.valueOf(n(a))); }
    public static Value UAdd(final Value a, final Value b) { return over(a) || over(b) ? OVER : out(in(a).add(in(b))); }
    public static Value USub(final Value a, final Value b) { return over(a) || over(b) ? OVER : out(in(a).subtract(in(b))); }
    public static Value UShl(final Value a, final Value k) { return over(a) ? OVER : out(in(a).shiftLeft(n(k))); }
    public static Value UShr(final Value a, final Value k) { return over(a) ? OVER : out(in(a).shiftRight(n(k))); }
    public static Value ULt(final Value a, final Value b) {
        return in(a).compareTo(in(b)) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value UBit(final Value a, final Value k) { return IntValue.gen(in(a).testBit(n(k)) ? 1 : 0); }
    public static Value ULen(final Value a) { return IntValue.gen(in(a).bitLength()); }
}
