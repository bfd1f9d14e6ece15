// TLC module override for Sha256.tla: the operators there are specified, and
// given a body that TLC never evaluates; this class supplies their values.
import tlc2.value.impl.*;
import tlc2.value.IValue;
import util.UniqueString;
import java.security.MessageDigest;

public class Sha256 {
    private static final char[] HEX = "0123456789abcdef".toCharArray();

    private static int nib(char c) {
        if (c >= '0' && c <= '9') return c - '0';
        if (c >= 'a' && c <= 'f') return c - 'a' + 10;
        throw new RuntimeException("not a hex digit: " + c);
    }

    private static void feed(MessageDigest md, String s) {
        if ((s.length() & 1) != 0) throw new RuntimeException("odd hex string: " + s);
        byte[] b = new byte[s.length() / 2];
        for (int i = 0; i < b.length; i++)
            b[i] = (byte) ((nib(s.charAt(2 * i)) << 4) | nib(s.charAt(2 * i + 1)));
        md.update(b);
    }

    // Sha(<<h1, ..., hn>>): lower-case hex of SHA-256 of the bytes whose hex is
    // h1 \o ... \o hn.
    public static Value Sha(final Value parts) throws Exception {
        TupleValue t = (TupleValue) parts.toTuple();
        MessageDigest md = MessageDigest.getInstance("SHA-256");
        for (Value v : t.elems) feed(md, ((StringValue) v).getVal().toString());
        byte[] d = md.digest();
        char[] o = new char[64];
        for (int i = 0; i < 32; i++) { o[2 * i] = HEX[(d[i] >> 4) & 15]; o[2 * i + 1] = HEX[d[i] & 15]; }
        return new StringValue(new String(o));
    }

    // HexBits(h): the bits of h, most significant first, as a tuple of 0/1.
    public static Value HexBits(final Value h) {
        String s = ((StringValue) h).getVal().toString();
        Value[] e = new Value[s.length() * 4];
        for (int i = 0; i < s.length(); i++) {
            int n = nib(s.charAt(i));
            for (int j = 0; j < 4; j++) e[4 * i + j] = IntValue.gen((n >> (3 - j)) & 1);
        }
        return new TupleValue(e);
    }

    // BitsHex(b): inverse of HexBits, for a tuple whose length is a multiple of 4.
    public static Value BitsHex(final Value b) {
        TupleValue t = (TupleValue) b.toTuple();
        if (t.elems.length % 4 != 0) throw new RuntimeException("BitsHex: length " + t.elems.length);
        char[] o = new char[t.elems.length / 4];
        for (int i = 0; i < o.length; i++) {
            int n = 0;
            for (int j = 0; j < 4; j++) n = (n << 1) | ((IntValue) t.elems[4 * i + j]).val;
            o[i] = HEX[n];
        }
        return new StringValue(new String(o));
    }

    // BitAt(h, i): bit i (0 = most significant) of the byte string h.
    public static Value BitAt(final Value h, final Value i) {
        String s = ((StringValue) h).getVal().toString();
        int k = ((IntValue) i).val;
        return IntValue.gen((nib(s.charAt(k / 4)) >> (3 - k % 4)) & 1);
    }

    // MaxCommon(h, S): the longest common prefix, in bits, of h and an element of S.
    public static Value MaxCommon(final Value h, final Value set) {
        String a = ((StringValue) h).getVal().toString();
        SetEnumValue e = (SetEnumValue) set.toSetEnum();
        int best = -1;
        for (int x = 0; x < e.elems.size(); x++) {
            String b = ((StringValue) e.elems.elementAt(x)).getVal().toString();
            if (b.length() != a.length()) throw new RuntimeException("MaxCommon: lengths differ");
            int n = 0;
            while (n < 4 * a.length() && ((nib(a.charAt(n / 4)) ^ nib(b.charAt(n / 4))) >> (3 - n % 4) & 1) == 0) n++;
            best = Math.max(best, n);
        }
        if (best < 0) throw new RuntimeException("MaxCommon: empty set");
        return IntValue.gen(best);
    }
}
