package deodr;

import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;

import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;

/**
 * Exact evaluation of the operators of spec/Rat.tla.
 *
 * A number is a TLA+ string  "v" or "v~t1~...~tk": a rational value v = "n" or "n/d" (canonical:
 * d > 1, gcd 1), and optionally k tangent components (forward mode derivative of the value in k
 * directions).  "inf", "-inf" and "nan" are allowed as values: they take part in comparisons only.
 */
public class RatOverrides implements ITLCOverrides {
    @SuppressWarnings("rawtypes")
    @Override
    public Class[] get() {
        return new Class[] { RatOverrides.class };
    }

    static final class Q {
        final BigInteger n, d;
        static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE);
        static final Q ONE = new Q(BigInteger.ONE, BigInteger.ONE);
        static final Q INF = new Q(BigInteger.ONE, BigInteger.ZERO);
        static final Q MINF = new Q(BigInteger.ONE.negate(), BigInteger.ZERO);
        static final Q NAN = new Q(BigInteger.ZERO, BigInteger.ZERO);

        private Q(BigInteger n, BigInteger d) {
            this.n = n;
            this.d = d;
        }

        static Q of(BigInteger n, BigInteger d) {
            if (d.signum() == 0)
                throw new ArithmeticException("Rat: division by zero");
            if (d.signum() < 0) {
                n = n.negate();
                d = d.negate();
            }
            if (d.bitCount() == 1) { // dyadic: most numbers are
                int z = Math.min(d.getLowestSetBit(), n.signum() == 0 ? Integer.MAX_VALUE : n.getLowestSetBit());
                if (z > 0) {
                    n = n.shiftRight(z);
                    d = d.shiftRight(z);
                }
                if (d.bitLength() <= 600)
                    return new Q(n, d);
            }
            if (!d.equals(BigInteger.ONE)) {
                BigInteger g = n.gcd(d);
                if (!g.equals(BigInteger.ONE)) {
                    n = n.divide(g);
                    d = d.divide(g);
                }
                // numbers that come from general doubles grow without bound: beyond 600 bits of
                // denominator a number is rounded to 400 significant bits (2^-400 relative)
                if (d.bitLength() > 600 && n.signum() != 0) {
                    int s = 400 - (n.bitLength() - d.bitLength());
                    BigInteger m = s >= 0 ? n.shiftLeft(s).divide(d) : n.divide(d.shiftLeft(-s));
                    if (m.signum() == 0 || s <= 0)
                        return new Q(s <= 0 ? m.shiftLeft(-s) : m, BigInteger.ONE);
                    int z = Math.min(s, m.getLowestSetBit());
                    return new Q(m.shiftRight(z), BigInteger.ONE.shiftLeft(s - z));
                }
            }
            return new Q(n, d);
        }

        boolean fin() {
            return d.signum() != 0;
        }

        void chk() {
            if (d.signum() == 0)
                throw new ArithmeticException("Rat: arithmetic on a non finite number");
        }

        Q add(Q o) {
            chk();
            o.chk();
            if (n.signum() == 0)
                return o;
            if (o.n.signum() == 0)
                return this;
            return d.equals(o.d) ? of(n.add(o.n), d) : of(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
        }

        Q neg() {
            chk();
            return new Q(n.negate(), d);
        }

        Q mul(Q o) {
            chk();
            o.chk();
            if (n.signum() == 0 || o.n.signum() == 0)
                return ZERO;
            return of(n.multiply(o.n), d.multiply(o.d));
        }

        Q inv() {
            chk();
            return of(d, n);
        }

        int cmp(Q o) {
            if (!fin() || !o.fin()) {
                if (this == NAN || o == NAN)
                    throw new ArithmeticException("Rat: comparison with nan");
                return Integer.compare(fin() ? 0 : n.signum(), o.fin() ? 0 : o.n.signum());
            }
            return n.multiply(o.d).compareTo(o.n.multiply(d));
        }

        BigInteger floor() {
            chk();
            BigInteger[] qr = n.divideAndRemainder(d);
            return qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
        }

        Q sqrt() {
            chk();
            if (n.signum() < 0)
                throw new ArithmeticException("Rat: sqrt of a negative number");
            if (n.signum() == 0)
                return ZERO;
            BigInteger rn = n.sqrt(), rd = d.sqrt();
            if (rn.multiply(rn).equals(n) && rd.multiply(rd).equals(d))
                return of(rn, rd);
            // relative error below 2^-150
            int s = Math.max(0, 320 - (n.bitLength() - d.bitLength()));
            s += s & 1;
            return of(n.shiftLeft(s).divide(d).sqrt(), BigInteger.ONE.shiftLeft(s / 2));
        }

        @Override
        public String toString() {
            if (!fin())
                return this == NAN ? "nan" : n.signum() > 0 ? "inf" : "-inf";
            return d.equals(BigInteger.ONE) ? n.toString() : n + "/" + d;
        }

        static Q parse(String s) {
            switch (s) {
            case "inf":
                return INF;
            case "-inf":
                return MINF;
            case "nan":
                return NAN;
            }
            int i = s.indexOf('/');
            if (i >= 0)
                return of(new BigInteger(s.substring(0, i)), new BigInteger(s.substring(i + 1)));
            return new Q(new BigInteger(s), BigInteger.ONE);
        }
    }

    /** m 2^e with m of at most 160 bits: tangents, which are only ever compared with a tolerance */
    static final class D {
        static final D ZERO = new D(BigInteger.ZERO, 0);
        final BigInteger m;
        final int e;

        private D(BigInteger m, int e) {
            this.m = m;
            this.e = e;
        }

        static D of(BigInteger m, int e) {
            if (m.signum() == 0)
                return ZERO;
            int s = Math.max(m.bitLength() - 160, m.getLowestSetBit());
            return new D(m.shiftRight(s), e + s);
        }

        static D of(Q q) {
            q.chk();
            int s = 170 - (q.n.bitLength() - q.d.bitLength());
            if (q.d.bitCount() == 1)
                return of(q.n, -q.d.getLowestSetBit());
            return of(s >= 0 ? q.n.shiftLeft(s).divide(q.d) : q.n.divide(q.d.shiftLeft(-s)), -s);
        }

        Q q() {
            return e >= 0 ? Q.of(m.shiftLeft(e), BigInteger.ONE) : Q.of(m, BigInteger.ONE.shiftLeft(-e));
        }

        D add(D o) {
            if (m.signum() == 0)
                return o;
            if (o.m.signum() == 0)
                return this;
            int d = e - o.e;
            if (d > 1000 || d < -1000)
                return m.bitLength() + (long) e > o.m.bitLength() + (long) o.e ? this : o;
            return d >= 0 ? of(m.shiftLeft(d).add(o.m), o.e) : of(m.add(o.m.shiftLeft(-d)), e);
        }

        D neg() {
            return m.signum() == 0 ? this : new D(m.negate(), e);
        }

        D mul(D o) {
            return m.signum() == 0 || o.m.signum() == 0 ? ZERO : of(m.multiply(o.m), e + o.e);
        }

        @Override
        public String toString() {
            return m.toString(16) + "^" + e;
        }

        static D parse(String s) {
            int i = s.indexOf('^');
            if (i < 0)
                return of(Q.parse(s));
            return of(new BigInteger(s.substring(0, i), 16), Integer.parseInt(s.substring(i + 1)));
        }
    }

    static final D[] NOTAN = new D[0];

    static final class N {
        final Q v;
        final D[] t;
        private D approximate;

        N(Q v, D[] t) {
            this.v = v;
            boolean z = true;
            for (D d : t)
                z &= d.m.signum() == 0;
            this.t = z ? NOTAN : t;
        }

        D tan(int i) {
            return i < t.length ? t[i] : D.ZERO;
        }

        D d() {
            if (approximate == null)
                approximate = D.of(v);
            return approximate;
        }
    }

    static final ConcurrentHashMap<String, N> cache = new ConcurrentHashMap<>();

    static void remember(String s, N x) {
        if (cache.size() > 400000)
            cache.clear();
        cache.put(s, x);
    }

    static N get(Value val) {
        if (val instanceof IntValue)
            return new N(Q.of(BigInteger.valueOf(((IntValue) val).val), BigInteger.ONE), NOTAN);
        String s = ((StringValue) val).val.toString();
        N x = cache.get(s);
        if (x == null) {
            String[] p = s.split("~");
            D[] t = p.length == 1 ? NOTAN : new D[p.length - 1];
            for (int i = 1; i < p.length; i++)
                t[i - 1] = D.parse(p[i]);
            x = new N(Q.parse(p[0]), t);
            remember(s, x);
        }
        return x;
    }

    static Value put(N x) {
        String s = x.v.toString();
        if (x.t.length > 0) {
            StringBuilder b = new StringBuilder(s);
            for (D d : x.t)
                b.append('~').append(d);
            s = b.toString();
        }
        remember(s, x);
        return new StringValue(s);
    }

    interface T {
        D f(int i);
    }

    static N mk(Q v, int k, T f) {
        if (k == 0)
            return new N(v, NOTAN);
        D[] t = new D[k];
        for (int i = 0; i < k; i++)
            t[i] = f.f(i);
        return new N(v, t);
    }

    static int k(N a, N b) {
        return Math.max(a.t.length, b.t.length);
    }

    static N add(N a, N b) {
        return mk(a.v.add(b.v), k(a, b), i -> a.tan(i).add(b.tan(i)));
    }

    static N neg(N a) {
        return mk(a.v.neg(), a.t.length, i -> a.t[i].neg());
    }

    static N mul(N a, N b) {
        int k = k(a, b);
        Q v = a.v.mul(b.v);
        if (k == 0)
            return new N(v, NOTAN);
        D da = a.d(), db = b.d();
        return mk(v, k, i -> a.tan(i).mul(db).add(da.mul(b.tan(i))));
    }

    static N inv(N a) {
        Q r = a.v.inv();
        if (a.t.length == 0)
            return new N(r, NOTAN);
        D d = D.of(r), s = d.mul(d).neg();
        return mk(r, a.t.length, i -> a.t[i].mul(s));
    }

    static N sqrt(N a) {
        Q r = a.v.sqrt();
        if (a.t.length == 0)
            return new N(r, NOTAN);
        D s = D.of(r.add(r).inv());
        return mk(r, a.t.length, i -> a.t[i].mul(s));
    }

    static Value[] seq(Value s) {
        TupleValue tv = (TupleValue) s.toTuple();
        if (tv == null)
            throw new IllegalArgumentException("Rat: a sequence was expected: " + s);
        return tv.elems;
    }

    @TLAPlusOperator(identifier = "RAdd", module = "Rat", warn = false)
    public static Value rAdd(Value a, Value b) {
        return put(add(get(a), get(b)));
    }

    @TLAPlusOperator(identifier = "RSub", module = "Rat", warn = false)
    public static Value rSub(Value a, Value b) {
        return put(add(get(a), neg(get(b))));
    }

    @TLAPlusOperator(identifier = "RMul", module = "Rat", warn = false)
    public static Value rMul(Value a, Value b) {
        return put(mul(get(a), get(b)));
    }

    @TLAPlusOperator(identifier = "RDiv", module = "Rat", warn = false)
    public static Value rDiv(Value a, Value b) {
        return put(mul(get(a), inv(get(b))));
    }

    @TLAPlusOperator(identifier = "RNeg", module = "Rat", warn = false)
    public static Value rNeg(Value a) {
        return put(neg(get(a)));
    }

    @TLAPlusOperator(identifier = "RSqrt", module = "Rat", warn = false)
    public static Value rSqrt(Value a) {
        return put(sqrt(get(a)));
    }

    @TLAPlusOperator(identifier = "RLt", module = "Rat", warn = false)
    public static Value rLt(Value a, Value b) {
        return get(a).v.cmp(get(b).v) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "RLe", module = "Rat", warn = false)
    public static Value rLe(Value a, Value b) {
        return get(a).v.cmp(get(b).v) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "REq", module = "Rat", warn = false)
    public static Value rEq(Value a, Value b) {
        return get(a).v.cmp(get(b).v) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    @TLAPlusOperator(identifier = "RSign", module = "Rat", warn = false)
    public static Value rSign(Value a) {
        return IntValue.gen(get(a).v.n.signum());
    }

    @TLAPlusOperator(identifier = "RFin", module = "Rat", warn = false)
    public static Value rFin(Value a) {
        return get(a).v.fin() ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    static int saturated(BigInteger b) {
        return b.bitLength() < 30 ? b.intValue() : b.signum() * (1 << 30);
    }

    @TLAPlusOperator(identifier = "RFloor", module = "Rat", warn = false)
    public static Value rFloor(Value a) {
        return IntValue.gen(saturated(get(a).v.floor()));
    }

    @TLAPlusOperator(identifier = "RCeil", module = "Rat", warn = false)
    public static Value rCeil(Value a) {
        return IntValue.gen(saturated(get(a).v.neg().floor().negate()));
    }

    @TLAPlusOperator(identifier = "R", module = "Rat", warn = false)
    public static Value r(Value a) {
        return put(get(a));
    }

    @TLAPlusOperator(identifier = "RVal", module = "Rat", warn = false)
    public static Value rVal(Value a) {
        return put(new N(get(a).v, NOTAN));
    }

    @TLAPlusOperator(identifier = "RTan", module = "Rat", warn = false)
    public static Value rTan(Value a, Value i) {
        return put(new N(get(a).tan(((IntValue) i).val - 1).q(), NOTAN));
    }

    /** value a moving with speed s in direction number i of k */
    @TLAPlusOperator(identifier = "RDir", module = "Rat", warn = false)
    public static Value rDir(Value a, Value s, Value i, Value k) {
        int ii = ((IntValue) i).val - 1;
        D sv = get(s).d();
        return put(mk(get(a).v, ((IntValue) k).val, j -> j == ii ? sv : D.ZERO));
    }

    @TLAPlusOperator(identifier = "RSum", module = "Rat", warn = false)
    public static Value rSum(Value s) {
        N r = new N(Q.ZERO, NOTAN);
        for (Value x : seq(s))
            r = add(r, get(x));
        return put(r);
    }

    @TLAPlusOperator(identifier = "RDot", module = "Rat", warn = false)
    public static Value rDot(Value s, Value t) {
        Value[] a = seq(s), b = seq(t);
        if (a.length != b.length)
            throw new IllegalArgumentException("RDot: lengths " + a.length + " and " + b.length);
        N r = new N(Q.ZERO, NOTAN);
        for (int i = 0; i < a.length; i++)
            r = add(r, mul(get(a[i]), get(b[i])));
        return put(r);
    }

    /** |a - b| <= tol * (1 + |b|); a non finite number is close to itself only, nan to nothing */
    static boolean close(Q a, Q b, Q tol) {
        if (!a.fin() || !b.fin())
            return a == b && a != Q.NAN;
        Q e = a.add(b.neg());
        if (e.n.signum() < 0)
            e = e.neg();
        Q m = b.n.signum() < 0 ? b.neg() : b;
        return e.cmp(tol.mul(Q.ONE.add(m))) <= 0;
    }

    @TLAPlusOperator(identifier = "RClose", module = "Rat", warn = false)
    public static Value rClose(Value a, Value b, Value tol) {
        return close(get(a).v, get(b).v, get(tol).v) ? BoolValue.ValTrue : BoolValue.ValFalse;
    }

    /** index of the first component of sequence a that is not close to that of b; 0 if none; -1 lengths differ */
    @TLAPlusOperator(identifier = "RFirstFar", module = "Rat", warn = false)
    public static Value rFirstFar(Value s, Value t, Value tol) {
        Value[] a = seq(s), b = seq(t);
        if (a.length != b.length)
            return IntValue.gen(-1);
        Q e = get(tol).v;
        for (int i = 0; i < a.length; i++)
            if (!close(get(a[i]).v, get(b[i]).v, e))
                return IntValue.gen(i + 1);
        return IntValue.gen(0);
    }

    @TLAPlusOperator(identifier = "RFloat", module = "Rat", warn = false)
    public static Value rFloat(Value a) {
        Q q = get(a).v;
        if (!q.fin())
            return new StringValue(q.toString());
        double x = new java.math.BigDecimal(q.n).divide(new java.math.BigDecimal(q.d), java.math.MathContext.DECIMAL128).doubleValue();
        return new StringValue(Double.toString(x));
    }
}
