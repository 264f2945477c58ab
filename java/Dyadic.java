import java.math.BigInteger;
import tlc2.value.impl.*;
import tlc2.overrides.TLAPlusOperator;

/** BigInteger overrides for the hot operators of Dyadic.tla (same semantics as the TLA+ definitions). */
public class Dyadic {
    static final int NAN = 7, PINF = 8, NINF = 9;
    static final class D {
        final int code;           // 0 finite, else NAN/PINF/NINF
        final BigInteger m; final int e;   // value m * 2^(15 e)
        D(int c) { code = c; m = null; e = 0; }
        D(BigInteger m, int e) { code = 0; this.m = m; this.e = e; }
        int sgn() { return code == 0 ? m.signum() : code == PINF ? 1 : code == NINF ? -1 : 7; }
    }
    static final D ZERO = new D(BigInteger.ZERO, 0);

    static D parse(Value v) {
        Value[] el = ((TupleValue) v.toTuple()).elems;
        int s = ((IntValue) el[0]).val;
        if (s == 0) return ZERO;
        if (s >= NAN) return new D(s);
        int k = el.length - 2;
        if (k <= 4) {
            long x = 0;
            for (int i = k - 1; i >= 0; i--) x = (x << 15) | ((IntValue) el[2 + i]).val;
            return new D(BigInteger.valueOf(s < 0 ? -x : x), ((IntValue) el[1]).val);
        }
        byte[] mag = null;
        BigInteger m = BigInteger.ZERO;
        for (int i = k - 1; i >= 0; i--) m = m.shiftLeft(15).or(BigInteger.valueOf(((IntValue) el[2 + i]).val));
        return new D(s < 0 ? m.negate() : m, ((IntValue) el[1]).val);
    }
    static Value unparse(D d) {
        if (d.code != 0) return tup(d.code, 0);
        int s = d.m.signum();
        if (s == 0) return tup(0, 0);
        BigInteger a = d.m.abs();
        int e = d.e;
        int z = a.getLowestSetBit() / 15;
        if (z > 0) { a = a.shiftRight(15 * z); e += z; }
        int n = (a.bitLength() + 14) / 15;
        Value[] el = new Value[2 + n];
        el[0] = IntValue.gen(s); el[1] = IntValue.gen(e);
        BigInteger mask = BigInteger.valueOf(32767);
        for (int i = 0; i < n; i++) { el[2 + i] = IntValue.gen(a.and(mask).intValue()); a = a.shiftRight(15); }
        return new TupleValue(el);
    }
    static Value tup(int a, int b) { return new TupleValue(new Value[] { IntValue.gen(a), IntValue.gen(b) }); }

    static D add(D a, D b) {
        if (a.code == NAN || b.code == NAN) return new D(NAN);
        if (a.code == 0 && b.code == 0) {
            if (a.m.signum() == 0) return b;
            if (b.m.signum() == 0) return a;
            int e = Math.min(a.e, b.e);
            return new D(a.m.shiftLeft(15 * (a.e - e)).add(b.m.shiftLeft(15 * (b.e - e))), e);
        }
        if (a.code == 0) return b;
        if (b.code == 0) return a;
        return a.code == b.code ? a : new D(NAN);
    }
    static D mul(D a, D b) {
        if (a.code == NAN || b.code == NAN) return new D(NAN);
        if (a.code == 0 && b.code == 0) {
            BigInteger p = a.m.multiply(b.m);
            return p.signum() == 0 ? ZERO : new D(p, a.e + b.e);
        }
        int s = a.sgn() * b.sgn();
        return s == 0 ? new D(NAN) : new D(s > 0 ? PINF : NINF);
    }
    static int cmp(D a, D b) {
        if (a.code == NAN || b.code == NAN) return 2;
        if (a.code == 0 && b.code == 0) {
            int e = Math.min(a.e, b.e);
            return a.m.shiftLeft(15 * (a.e - e)).compareTo(b.m.shiftLeft(15 * (b.e - e)));
        }
        if (a.code == b.code) return 0;
        return (a.code == PINF || b.code == NINF) ? 1 : -1;
    }
    static Value[] vec(Value v) { return ((TupleValue) v.toTuple()).elems; }

    @TLAPlusOperator(identifier = "DAdd", module = "Dyadic", warn = false)
    public static Value DAdd(Value a, Value b) { return unparse(add(parse(a), parse(b))); }
    @TLAPlusOperator(identifier = "DMul", module = "Dyadic", warn = false)
    public static Value DMul(Value a, Value b) { return unparse(mul(parse(a), parse(b))); }
    @TLAPlusOperator(identifier = "DCmp", module = "Dyadic", warn = false)
    public static Value DCmp(Value a, Value b) { return IntValue.gen(cmp(parse(a), parse(b))); }
    @TLAPlusOperator(identifier = "DDot", module = "Dyadic", warn = false)
    public static Value DDot(Value u, Value v) {
        Value[] x = vec(u), y = vec(v);
        D s = ZERO;
        for (int i = 0; i < x.length; i++) s = add(s, mul(parse(x[i]), parse(y[i])));
        return unparse(s);
    }
    @TLAPlusOperator(identifier = "DSumSq", module = "Dyadic", warn = false)
    public static Value DSumSq(Value u) {
        D s = ZERO;
        for (Value x : vec(u)) { D d = parse(x); s = add(s, mul(d, d)); }
        return unparse(s);
    }
}
