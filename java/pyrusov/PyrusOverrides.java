package pyrusov;

import java.math.BigInteger;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/** BigInteger implementations of the operators of Big.tla and Rat.tla. */
public class PyrusOverrides implements ITLCOverrides {
    @Override
    public Class[] get() { return new Class[] { PyrusOverrides.class }; }

    private static final BigInteger BASE = BigInteger.valueOf(10000);
    private static final BigInteger GRID = BigInteger.TEN.pow(30);

    static BigInteger dec(Value v0) {
        final TupleValue v = (TupleValue) v0.toTuple();
        final Value[] e = v.elems;
        final int s = ((IntValue) e[0]).val;
        if (s == 0) return BigInteger.ZERO;
        BigInteger r;
        int i = e.length - 1;
        long acc = 0;
        int k = 0;
        // first chunk of up to 4 digits
        while (i >= 1 && k < 4) { acc = acc * 10000 + ((IntValue) e[i]).val; i--; k++; }
        r = BigInteger.valueOf(acc);
        while (i >= 1) {
            acc = 0; long m = 1; k = 0;
            while (i >= 1 && k < 4) { acc = acc * 10000 + ((IntValue) e[i]).val; m *= 10000; i--; k++; }
            r = r.multiply(BigInteger.valueOf(m)).add(BigInteger.valueOf(acc));
        }
        return s < 0 ? r.negate() : r;
    }

    private static final BigInteger B16 = BigInteger.valueOf(10000L * 10000L * 10000L * 10000L);
    private static final Value ZERO = new TupleValue(new Value[] { IntValue.gen(0) });
    private static final Value ONE = new TupleValue(new Value[] { IntValue.gen(1), IntValue.gen(1) });

    static Value enc(BigInteger b) {
        int s = b.signum();
        if (s == 0) return ZERO;
        if (b.equals(BigInteger.ONE)) return ONE;
        BigInteger m = b.abs();
        int[] buf = new int[m.bitLength() / 13 + 8];
        int n = 0;
        while (m.bitLength() > 62) {
            BigInteger[] qr = m.divideAndRemainder(B16);
            long lo = qr[1].longValue();
            for (int k = 0; k < 4; k++) { buf[n++] = (int) (lo % 10000); lo /= 10000; }
            m = qr[0];
        }
        long lo = m.longValue();
        while (lo != 0) { buf[n++] = (int) (lo % 10000); lo /= 10000; }
        while (n > 0 && buf[n - 1] == 0) n--;
        Value[] e = new Value[n + 1];
        e[0] = IntValue.gen(s);
        for (int i = 0; i < n; i++) e[i + 1] = IntValue.gen(buf[i]);
        return new TupleValue(e);
    }

    static final class Q {
        final BigInteger n, d;
        Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
    }
    static Q decQ(Value v0) {
        final TupleValue v = (TupleValue) v0.toTuple();
        return new Q(dec(v.elems[0]), dec(v.elems[1]));
    }
    static Value mk(BigInteger n, BigInteger d) {
        if (n.signum() == 0) return new TupleValue(new Value[] { ZERO, ONE });
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        if (!d.equals(BigInteger.ONE)) {
            BigInteger g = n.gcd(d);
            if (!g.equals(BigInteger.ONE)) { n = n.divide(g); d = d.divide(g); }
        }
        return new TupleValue(new Value[] { enc(n), enc(d) });
    }
    static BigInteger fdiv(BigInteger a, BigInteger b) {
        BigInteger[] qr = a.divideAndRemainder(b);
        return (qr[1].signum() < 0) ? qr[0].subtract(BigInteger.ONE) : qr[0];
    }

    // ---- Big ----
    @TLAPlusOperator(identifier = "BOfInt", module = "Big", warn = false)
    public static Value bOfInt(final Value i) { return enc(BigInteger.valueOf(((IntValue) i).val)); }
    @TLAPlusOperator(identifier = "BAdd", module = "Big", warn = false)
    public static Value bAdd(final Value x, final Value y) { return enc(dec(x).add(dec(y))); }
    @TLAPlusOperator(identifier = "BSub", module = "Big", warn = false)
    public static Value bSub(final Value x, final Value y) { return enc(dec(x).subtract(dec(y))); }
    @TLAPlusOperator(identifier = "BMul", module = "Big", warn = false)
    public static Value bMul(final Value x, final Value y) { return enc(dec(x).multiply(dec(y))); }
    @TLAPlusOperator(identifier = "BCmp", module = "Big", warn = false)
    public static Value bCmp(final Value x, final Value y) { return IntValue.gen(dec(x).compareTo(dec(y))); }
    @TLAPlusOperator(identifier = "BDiv", module = "Big", warn = false)
    public static Value bDiv(final Value x, final Value y) { return enc(fdiv(dec(x), dec(y))); }
    @TLAPlusOperator(identifier = "BMod", module = "Big", warn = false)
    public static Value bMod(final Value x, final Value y) { return enc(dec(x).mod(dec(y))); }
    @TLAPlusOperator(identifier = "BGcd", module = "Big", warn = false)
    public static Value bGcd(final Value x, final Value y) { return enc(dec(x).gcd(dec(y))); }
    @TLAPlusOperator(identifier = "BSqrt", module = "Big", warn = false)
    public static Value bSqrt(final Value x) { return enc(dec(x).sqrt()); }

    // ---- Rat ----
    @TLAPlusOperator(identifier = "RMk", module = "Rat", warn = false)
    public static Value rMk(final Value n, final Value d) { return mk(dec(n), dec(d)); }
    @TLAPlusOperator(identifier = "RInt", module = "Rat", warn = false)
    public static Value rInt(final Value i) {
        return new TupleValue(new Value[] { enc(BigInteger.valueOf(((IntValue) i).val)), ONE });
    }
    @TLAPlusOperator(identifier = "RFrac", module = "Rat", warn = false)
    public static Value rFrac(final Value i, final Value j) {
        return mk(BigInteger.valueOf(((IntValue) i).val), BigInteger.valueOf(((IntValue) j).val));
    }
    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value rAdd(final Value x, final Value y) {
        Q a = decQ(x), b = decQ(y);
        if (a.d.equals(b.d)) return mk(a.n.add(b.n), a.d);
        return mk(a.n.multiply(b.d).add(b.n.multiply(a.d)), a.d.multiply(b.d));
    }
    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value rSub(final Value x, final Value y) {
        Q a = decQ(x), b = decQ(y);
        if (a.d.equals(b.d)) return mk(a.n.subtract(b.n), a.d);
        return mk(a.n.multiply(b.d).subtract(b.n.multiply(a.d)), a.d.multiply(b.d));
    }
    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value rMul(final Value x, final Value y) {
        Q a = decQ(x), b = decQ(y);
        return mk(a.n.multiply(b.n), a.d.multiply(b.d));
    }
    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value rDiv(final Value x, final Value y) {
        Q a = decQ(x), b = decQ(y);
        return mk(a.n.multiply(b.d), a.d.multiply(b.n));
    }
    @TLAPlusOperator(identifier = "RCmp", module = "Rat", warn = false)
    public static Value rCmp(final Value x, final Value y) { return IntValue.gen(cmp(x, y)); }
    static int cmp(final Value x, final Value y) {
        Q a = decQ(x), b = decQ(y);
        if (a.d.equals(b.d)) return a.n.compareTo(b.n);
        return a.n.multiply(b.d).compareTo(b.n.multiply(a.d));
    }
    @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
    public static Value rLe(final Value x, final Value y) { return cmp(x, y) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
    public static Value rLt(final Value x, final Value y) { return cmp(x, y) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    @TLAPlusOperator(identifier = "RGe", module = "Rat", warn = false)
    public static Value rGe(final Value x, final Value y) { return cmp(x, y) >= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    @TLAPlusOperator(identifier = "RGt", module = "Rat", warn = false)
    public static Value rGt(final Value x, final Value y) { return cmp(x, y) > 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    @TLAPlusOperator(identifier = "RFloor", module = "Rat", warn = false)
    public static Value rFloor(final Value x) { Q a = decQ(x); return new TupleValue(new Value[] { enc(fdiv(a.n, a.d)), ONE }); }
    @TLAPlusOperator(identifier = "RTrunc", module = "Rat", warn = false)
    public static Value rTrunc(final Value x) { Q a = decQ(x); return mk(fdiv(a.n.multiply(GRID), a.d), GRID); }
    @TLAPlusOperator(identifier = "RSqrt", module = "Rat", warn = false)
    public static Value rSqrt(final Value x) {
        Q a = decQ(x);
        return mk(a.n.multiply(GRID).multiply(GRID).divide(a.d).sqrt(), GRID);
    }
}
