// Java override of the TLA+ module spec/MP.tla.
//
// MP.tla defines complex arithmetic over TLA+'s Reals.  TLC cannot evaluate Reals, so this class evaluates
// the same operators with complex floating point numbers of PREC = 320 bits (about 96 digits) and an
// unbounded exponent.  Every operation rounds its result with a relative error below 2^-315; the operators
// of the specification are compared with tolerances of 1e-6 .. 1e-14, so this error is negligible.
import java.math.BigInteger;
import java.math.BigDecimal;
import java.math.MathContext;
import tlc2.value.impl.*;
import util.UniqueString;

public class MP {
    static final int PREC = 320;

    // ------------------------------------------------------------------ real numbers
    static final class R {
        final BigInteger m;   // value = m * 2^e
        final int e;
        final byte k;         // 0 finite, 1 NaN, 2 +inf, 3 -inf
        R(BigInteger m, int e) { this.m = m; this.e = e; this.k = 0; }
        R(byte k) { this.m = BigInteger.ZERO; this.e = 0; this.k = k; }
        boolean fin() { return k == 0; }
        boolean zero() { return k == 0 && m.signum() == 0; }
        int sgn() { return k == 0 ? m.signum() : (k == 2 ? 1 : (k == 3 ? -1 : 0)); }
        /** floor(log2|x|) */
        int mag() { return m.abs().bitLength() - 1 + e; }
    }
    static final R ZERO = new R(BigInteger.ZERO, 0), ONE = new R(BigInteger.ONE, 0), TWO = new R(BigInteger.TWO, 0);
    static final R NAN = new R((byte) 1), PINF = new R((byte) 2), MINF = new R((byte) 3);

    static R rnd(BigInteger m, int e) { return rnd(m, e, PREC); }
    static R rnd(BigInteger m, int e, int prec) {
        int bl = m.abs().bitLength();
        if (bl == 0) return ZERO;
        int s = bl - prec;
        if (s > 0) {
            BigInteger a = m.abs().shiftRight(s - 1).add(BigInteger.ONE).shiftRight(1);
            m = m.signum() < 0 ? a.negate() : a;
            e += s;
        }
        return new R(m, e);
    }
    static R of(long n) { return new R(BigInteger.valueOf(n), 0); }
    static R neg(R a) { return a.k == 0 ? new R(a.m.negate(), a.e) : a.k == 2 ? MINF : a.k == 3 ? PINF : NAN; }
    static R add(R a, R b) {
        if (!a.fin() || !b.fin()) {
            if (a.k == 1 || b.k == 1) return NAN;
            if (a.fin()) return b;
            if (b.fin()) return a;
            return a.k == b.k ? a : NAN;
        }
        if (a.zero()) return b;
        if (b.zero()) return a;
        if (a.e < b.e) { R t = a; a = b; b = t; }
        if (a.mag() - b.mag() > PREC + 80) return a;
        if (b.mag() - a.mag() > PREC + 80) return b;
        return rnd(a.m.shiftLeft(a.e - b.e).add(b.m), b.e);
    }
    static R sub(R a, R b) { return add(a, neg(b)); }
    static R mul(R a, R b) {
        if (!a.fin() || !b.fin()) {
            int s = a.sgn() * b.sgn();
            return s > 0 ? PINF : s < 0 ? MINF : NAN;
        }
        return rnd(a.m.multiply(b.m), a.e + b.e);
    }
    static R div(R a, R b) {
        if (a.k == 1 || b.k == 1 || b.zero()) return NAN;
        if (!b.fin()) return a.fin() ? ZERO : NAN;
        if (!a.fin()) return b.sgn() * a.sgn() > 0 ? PINF : MINF;
        int sh = Math.max(0, PREC + 4 + b.m.bitLength() - a.m.bitLength());
        return rnd(a.m.shiftLeft(sh).divide(b.m), a.e - b.e - sh);
    }
    static R sqrt(R a) {
        if (a.k == 2) return PINF;
        if (!a.fin() || a.sgn() < 0) return NAN;
        if (a.zero()) return ZERO;
        int sh = Math.max(0, 2 * PREC + 8 - a.m.bitLength());
        if (((a.e - sh) & 1) != 0) sh++;
        return rnd(a.m.shiftLeft(sh).sqrt(), (a.e - sh) / 2);
    }
    static int cmp(R a, R b) { // no NaN
        if (a.k == b.k && a.k != 0) return 0;
        if (a.k == 2 || b.k == 3) return 1;
        if (a.k == 3 || b.k == 2) return -1;
        if (a.sgn() != b.sgn()) return Integer.compare(a.sgn(), b.sgn());
        if (a.e >= b.e) {
            if (!a.zero() && !b.zero() && a.mag() != b.mag()) return a.sgn() * Integer.compare(a.mag(), b.mag());
            return a.m.shiftLeft(Math.min(a.e - b.e, 1 << 20)).compareTo(b.m);
        }
        return -cmp(b, a);
    }
    static R abs(R a) { return a.sgn() < 0 ? neg(a) : a; }
    static R scale2(R a, int n) { return a.fin() ? new R(a.m, a.e + n) : a; }
    static BigInteger floor(R a) { return a.e >= 0 ? a.m.shiftLeft(a.e) : a.m.shiftRight(-a.e); }
    static double dbl(R a) {
        if (a.k == 1) return Double.NaN;
        if (a.k == 2) return Double.POSITIVE_INFINITY;
        if (a.k == 3) return Double.NEGATIVE_INFINITY;
        if (a.zero()) return 0;
        R b = rnd(a.m, a.e, 53);
        if (b.mag() > 1030) return b.sgn() * Double.POSITIVE_INFINITY;
        if (b.mag() < -1080) return 0;
        int e = b.e; double v = b.m.doubleValue();
        while (e > 500) { v = Math.scalb(v, 500); e -= 500; }
        while (e < -500) { v = Math.scalb(v, -500); e += 500; }
        return Math.scalb(v, e);
    }

    // constants (computed once, to PREC + 64 bits)
    static final R PI, LN2;
    static {
        PI = computePi();
        LN2 = computeLn2();
    }
    static BigInteger arctanInv(int n, int bits) { // atan(1/n) * 2^bits
        BigInteger x = BigInteger.ONE.shiftLeft(bits).divide(BigInteger.valueOf(n)), s = x, n2 = BigInteger.valueOf((long) n * n);
        for (int k = 1; x.signum() != 0; k++) {
            x = x.divide(n2);
            BigInteger t = x.divide(BigInteger.valueOf(2 * k + 1));
            s = (k & 1) == 1 ? s.subtract(t) : s.add(t);
        }
        return s;
    }
    static R computePi() {
        int bits = 2 * PREC;
        BigInteger p = arctanInv(5, bits).multiply(BigInteger.valueOf(16)).subtract(arctanInv(239, bits).multiply(BigInteger.valueOf(4)));
        return rnd(p, -bits, PREC + 200);
    }
    static R computeLn2() { // ln 2 = 2 atanh(1/3)
        int bits = 2 * PREC;
        BigInteger x = BigInteger.ONE.shiftLeft(bits).divide(BigInteger.valueOf(3)), s = x;
        for (int k = 1; x.signum() != 0; k++) {
            x = x.divide(BigInteger.valueOf(9));
            s = s.add(x.divide(BigInteger.valueOf(2 * k + 1)));
        }
        return rnd(s.shiftLeft(1), -bits, PREC + 200);
    }
    static final int FX = PREC + 64; // fixed point bits of the series
    static BigInteger fix(R a) { int s = a.e + FX; return s >= 0 ? a.m.shiftLeft(s) : a.m.shiftRight(-s); }

    static R exp(R x) {
        if (x.k == 1) return NAN;
        if (x.k == 2) return PINF;
        if (x.k == 3) return ZERO;
        if (x.zero()) return ONE;
        if (x.mag() > 26) return x.sgn() > 0 ? PINF : ZERO; // beyond any double
        BigInteger q = floor(div(x, LN2));
        BigInteger r = fixExact(x).subtract(q.multiply(fix(LN2)));       // in [0, ln2) * 2^FX
        int red = 12;
        r = r.shiftRight(red);
        BigInteger one = BigInteger.ONE.shiftLeft(FX), t = one, s = one;
        for (int k = 1; t.signum() != 0 && k < 400; k++) {
            t = t.multiply(r).shiftRight(FX).divide(BigInteger.valueOf(k));
            s = s.add(t);
        }
        for (int i = 0; i < red; i++) s = s.multiply(s).shiftRight(FX);
        return rnd(s, q.intValueExact() - FX);
    }
    static BigInteger fixExact(R a) { return fix(a); }
    /** {cos x, sin x} */
    static R[] cossin(R x) {
        if (!x.fin()) return new R[]{NAN, NAN};
        if (x.zero()) return new R[]{ONE, ZERO};
        if (x.mag() > 60) return new R[]{NAN, NAN};
        R half = scale2(PI, -1);
        BigInteger q = floor(add(div(x, half), scale2(ONE, -1)));
        // r = x - q*pi/2, in fixed point with FX bits
        BigInteger r = fix(x).subtract(q.multiply(fix(half)));
        boolean tiny = q.signum() == 0;
        BigInteger one = BigInteger.ONE.shiftLeft(FX), t = one, c = one, s = BigInteger.ZERO;
        for (int k = 1; t.signum() != 0 && k < 600; k++) {
            t = t.multiply(r).shiftRight(FX).divide(BigInteger.valueOf(k));
            switch (k & 3) {
                case 1: s = s.add(t); break;
                case 2: c = c.subtract(t); break;
                case 3: s = s.subtract(t); break;
                default: c = c.add(t);
            }
            if (t.equals(BigInteger.ONE.negate())) break;
        }
        R C = rnd(c, -FX), S = rnd(s, -FX);
        if (tiny && x.mag() < -40) S = sub(x, div(mul(x, mul(x, x)), of(6)));
        switch (q.mod(BigInteger.valueOf(4)).intValue()) {
            case 0: return new R[]{C, S};
            case 1: return new R[]{neg(S), C};
            case 2: return new R[]{neg(C), neg(S)};
            default: return new R[]{S, neg(C)};
        }
    }
    static R log(R x) {
        if (x.k == 1 || x.sgn() < 0) return NAN;
        if (x.k == 2) return PINF;
        if (x.zero()) return MINF;
        int n = x.mag();
        R y = new R(x.m, x.e - n);                        // [1,2)
        if (dbl(y) > 1.42) { y = scale2(y, -1); n++; }
        // log y = 2 atanh((y-1)/(y+1)), after two square roots
        int red = 3;
        R w = y;
        for (int i = 0; i < red; i++) w = sqrt(w);
        R u = div(sub(y, ONE), ONE);
        for (int i = 0; i < red; i++) { // u = y^(1/2^i)-1 computed without cancellation
            R s = sqrt(add(ONE, u));
            u = div(u, add(s, ONE));
        }
        R v = div(u, add(u, TWO)), v2 = mul(v, v), t = v, s = v;
        if (!v.zero())
            for (int k = 1; k < 400; k++) {
                t = mul(t, v2);
                if (t.zero() || t.mag() < v.mag() - PREC - 8) break;
                s = add(s, div(t, of(2 * k + 1)));
            }
        s = scale2(s, 1 + red);
        return add(s, mul(of(n), LN2));
    }
    static R atan2(R y, R x) {
        if (!x.fin() || !y.fin()) return NAN;
        if (y.zero() && x.zero()) return ZERO;
        if (y.zero()) return x.sgn() > 0 ? ZERO : PI;
        if (x.zero()) return y.sgn() > 0 ? scale2(PI, -1) : neg(scale2(PI, -1));
        R ax = abs(x), ay = abs(y), a;
        boolean swap = cmp(ay, ax) > 0;
        R t = swap ? div(ax, ay) : div(ay, ax); // in [0,1]
        int red = 6;
        for (int i = 0; i < red; i++) t = div(t, add(ONE, sqrt(add(ONE, mul(t, t)))));
        R t2 = mul(t, t), p = t, s = t;
        if (!t.zero())
            for (int k = 1; k < 400; k++) {
                p = neg(mul(p, t2));
                if (p.zero() || p.mag() < t.mag() - PREC - 8) break;
                s = add(s, div(p, of(2 * k + 1)));
            }
        a = scale2(s, red);
        if (swap) a = sub(scale2(PI, -1), a);
        if (x.sgn() < 0) a = sub(PI, a);
        return y.sgn() < 0 ? neg(a) : a;
    }

    // ------------------------------------------------------------------ complex numbers
    static final class Z extends UserObj {
        final R re, im;
        Z(R re, R im) { this.re = re; this.im = im; }
        public int compareTo(Value v) {
            Z o = num(v);
            if (re.k == 1 || im.k == 1 || o.re.k == 1 || o.im.k == 1)
                return Integer.compare(re.k * 4 + im.k, o.re.k * 4 + o.im.k);
            int c = cmp(re, o.re);
            return c != 0 ? c : cmp(im, o.im);
        }
        public boolean member(Value v) { return false; }
        public boolean isFinite() { return true; }
        public StringBuffer toString(StringBuffer sb, int o, boolean s) { return sb.append(show(this)); }
    }
    static final class NV extends UserValue {
        NV(Z z) { super(z); }
        @Override public long fingerPrint(long fp) { return new StringValue(exact((Z) userObj)).fingerPrint(fp); }
    }
    static String exact(Z z) { return ex(z.re) + "," + ex(z.im); }
    static String ex(R r) {
        if (r.k != 0) return r.k == 1 ? "nan" : r.k == 2 ? "inf" : "-inf";
        if (r.zero()) return "0";
        int s = r.m.getLowestSetBit();
        return r.m.shiftRight(s).toString(16) + "p" + (r.e + s);
    }
    static String showR(R r) {
        if (r.k != 0) return r.k == 1 ? "nan" : r.k == 2 ? "inf" : "-inf";
        double d = dbl(r);
        if (d == 0 && !r.zero()) return "2^" + r.mag();
        return Double.toString(d);
    }
    static String show(Z z) { return z.im.zero() ? showR(z.re) : "(" + showR(z.re) + (z.im.sgn() < 0 ? "" : "+") + showR(z.im) + "j)"; }

    static Value val(Z z) { return new NV(z); }
    static Value val(R r) { return new NV(new Z(r, ZERO)); }
    static Z num(Value v) {
        if (v instanceof LazyValue) throw new RuntimeException("MP: lazy value");
        if (v instanceof UserValue) return (Z) ((UserValue) v).userObj;
        if (v instanceof IntValue) return new Z(of(((IntValue) v).val), ZERO);
        if (v instanceof StringValue) return parse(((StringValue) v).val.toString());
        throw new RuntimeException("MP: not a number: " + v);
    }
    static R parseR(String s) {
        s = s.trim();
        switch (s) {
            case "nan": case "-nan": case "+nan": return NAN;
            case "inf": case "+inf": return PINF;
            case "-inf": return MINF;
        }
        int p;
        if ((p = s.indexOf('/')) > 0) return div(parseR(s.substring(0, p)), parseR(s.substring(p + 1)));
        boolean neg = s.startsWith("-");
        String u = neg || s.startsWith("+") ? s.substring(1) : s;
        R r;
        if (u.startsWith("0x")) {                     // python float.hex(): 0x1.8p+3
            p = u.indexOf('p');
            String mant = u.substring(2, p);
            int e = Integer.parseInt(u.substring(p + 1).replace("+", ""));
            int dot = mant.indexOf('.');
            if (dot >= 0) { e -= 4 * (mant.length() - dot - 1); mant = mant.substring(0, dot) + mant.substring(dot + 1); }
            r = new R(new BigInteger(mant, 16), e);
        } else {
            BigDecimal d = new BigDecimal(u);
            if (d.scale() <= 0) r = rnd(d.toBigIntegerExact(), 0);
            else r = div(new R(d.unscaledValue(), 0), new R(BigInteger.TEN.pow(d.scale()), 0));
        }
        return neg ? MP.neg(r) : r;
    }
    static Z parse(String s) {
        int p = s.indexOf(',');
        if (p < 0) return new Z(parseR(s), ZERO);
        return new Z(parseR(s.substring(0, p)), parseR(s.substring(p + 1)));
    }
    static Z zadd(Z a, Z b) { return new Z(add(a.re, b.re), add(a.im, b.im)); }
    static Z zsub(Z a, Z b) { return new Z(sub(a.re, b.re), sub(a.im, b.im)); }
    static Z zmul(Z a, Z b) {
        if (a.im.zero()) return new Z(mul(a.re, b.re), b.im.zero() ? ZERO : mul(a.re, b.im));
        if (b.im.zero()) return new Z(mul(a.re, b.re), mul(a.im, b.re));
        return new Z(sub(mul(a.re, b.re), mul(a.im, b.im)), add(mul(a.re, b.im), mul(a.im, b.re)));
    }
    static Z zdiv(Z a, Z b) {
        if (b.im.zero()) return new Z(div(a.re, b.re), a.im.zero() && !b.re.zero() ? ZERO : div(a.im, b.re));
        R n = add(mul(b.re, b.re), mul(b.im, b.im));
        Z t = zmul(a, new Z(b.re, neg(b.im)));
        return new Z(div(t.re, n), div(t.im, n));
    }
    static R zabs(Z a) {
        if (!a.re.fin() || !a.im.fin()) return (a.re.k == 1 || a.im.k == 1) ? NAN : PINF;
        if (a.im.zero()) return abs(a.re);
        if (a.re.zero()) return abs(a.im);
        return sqrt(add(mul(a.re, a.re), mul(a.im, a.im)));
    }
    static Z zexp(Z a) {
        R x = exp(a.re);
        if (a.im.zero()) return new Z(x, ZERO);
        R[] cs = cossin(a.im);
        return new Z(mul(x, cs[0]), mul(x, cs[1]));
    }
    static Z zsqrt(Z a) { // principal branch; the negative axis belongs to the upper half plane
        if (a.im.zero()) return a.re.sgn() >= 0 ? new Z(sqrt(a.re), ZERO) : new Z(ZERO, sqrt(neg(a.re)));
        R r = zabs(a);
        if (a.re.sgn() >= 0) {
            R u = sqrt(scale2(add(r, a.re), -1));
            return new Z(u, div(a.im, scale2(u, 1)));
        }
        R w = sqrt(scale2(sub(r, a.re), -1));
        R u = div(abs(a.im), scale2(w, 1));
        return new Z(u, a.im.sgn() < 0 ? neg(w) : w);
    }
    static boolean b(boolean x) { return x; }

    // ------------------------------------------------------------------ TLA+ operators
    public static Value N(Value s) { return val(num(s)); }
    public static Value Cplx(Value a, Value b) { return val(new Z(num(a).re, num(b).re)); }
    public static Value Add(Value a, Value b) { return val(zadd(num(a), num(b))); }
    public static Value Sub(Value a, Value b) { return val(zsub(num(a), num(b))); }
    public static Value Mul(Value a, Value b) { return val(zmul(num(a), num(b))); }
    public static Value Div(Value a, Value b) { return val(zdiv(num(a), num(b))); }
    public static Value NegN(Value a) { Z z = num(a); return val(new Z(neg(z.re), neg(z.im))); }
    public static Value Conj(Value a) { Z z = num(a); return val(new Z(z.re, neg(z.im))); }
    public static Value Re(Value a) { return val(num(a).re); }
    public static Value Im(Value a) { return val(num(a).im); }
    public static Value Mag(Value a) { return val(zabs(num(a))); }
    public static Value ExpN(Value a) { return val(zexp(num(a))); }
    public static Value SqrtN(Value a) { return val(zsqrt(num(a))); }
    public static Value LogN(Value a) { Z z = num(a); return val(new Z(log(zabs(z)), atan2(z.im, z.re))); }
    public static Value PowN(Value a, Value n) {
        Z x = num(a), r = new Z(ONE, ZERO);
        int k = ((IntValue) n).val;
        if (k < 0) { x = zdiv(r, x); k = -k; }
        while (k > 0) { if ((k & 1) == 1) r = zmul(r, x); k >>= 1; if (k > 0) x = zmul(x, x); }
        return val(r);
    }
    public static Value PiN() { return val(rnd(PI.m, PI.e)); }
    public static Value Lt(Value a, Value b) { R x = num(a).re, y = num(b).re; return x.k != 1 && y.k != 1 && cmp(x, y) < 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value Le(Value a, Value b) { R x = num(a).re, y = num(b).re; return x.k != 1 && y.k != 1 && cmp(x, y) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value Same(Value a, Value b) {
        Z x = num(a), y = num(b);
        boolean nan = x.re.k == 1 || x.im.k == 1 || y.re.k == 1 || y.im.k == 1;
        return !nan && cmp(x.re, y.re) == 0 && cmp(x.im, y.im) == 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    public static Value IsFin(Value a) { Z z = num(a); return z.re.fin() && z.im.fin() ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value IsNaN(Value a) { Z z = num(a); return z.re.k == 1 || z.im.k == 1 ? BoolValue.ValTrue : BoolValue.ValFalse; }
    public static Value FloorN(Value a) { return IntValue.gen(floor(num(a).re).intValueExact()); }
    public static Value Show(Value a) { return new StringValue(show(num(a))); }
    public static Value Exact(Value a) { return new StringValue(exact(num(a))); }
    /** |a - b| <= atol + rtol * max(|a|,|b|), false if anything is not finite */
    public static Value Close(Value a, Value b, Value rtol, Value atol) {
        Z x = num(a), y = num(b);
        R d = zabs(zsub(x, y)), ax = zabs(x), ay = zabs(y);
        if (!d.fin()) return BoolValue.ValFalse;
        R t = add(num(atol).re, mul(num(rtol).re, cmp(ax, ay) > 0 ? ax : ay));
        return cmp(d, t) <= 0 ? BoolValue.ValTrue : BoolValue.ValFalse;
    }
    static Value[] elems(Value s) {
        TupleValue t = (TupleValue) s.toTuple();
        if (t == null) throw new RuntimeException("MP: not a sequence: " + s);
        return t.elems;
    }
    public static Value SumN(Value s) {
        Z r = new Z(ZERO, ZERO);
        for (Value v : elems(s)) r = zadd(r, num(v));
        return val(r);
    }
    public static Value Dot(Value s, Value t) {
        Z r = new Z(ZERO, ZERO);
        Value[] x = elems(s), y = elems(t);
        if (x.length != y.length) throw new RuntimeException("MP.Dot: lengths differ");
        for (int i = 0; i < x.length; i++) r = zadd(r, zmul(num(x[i]), num(y[i])));
        return val(r);
    }
    public static Value Horner(Value c, Value x) { // c[1] + c[2] x + ...
        Value[] a = elems(c);
        Z z = num(x), r = new Z(ZERO, ZERO);
        for (int i = a.length - 1; i >= 0; i--) r = zadd(zmul(r, z), num(a[i]));
        return val(r);
    }
    public static Value Vec(Value s) {
        Value[] a = elems(s), r = new Value[a.length];
        for (int i = 0; i < a.length; i++) r[i] = val(num(a[i]));
        return new TupleValue(r);
    }
    public static Value PoleSum(Value z, Value p, Value w) {
        Value[] a = elems(p), b = elems(w);
        if (a.length != b.length) throw new RuntimeException("MP.PoleSum: lengths differ");
        Z x = num(z), r = new Z(ZERO, ZERO);
        for (int i = 0; i < a.length; i++) r = zadd(r, zdiv(num(b[i]), zsub(x, num(a[i]))));
        return val(r);
    }
    public static Value MaxMag(Value s) {
        R r = ZERO;
        for (Value v : elems(s)) { R q = zabs(num(v)); if (q.k == 1) return val(NAN); if (cmp(q, r) > 0) r = q; }
        return val(r);
    }

    /** x with A x = b (square A); a vector of nan if A is singular to working precision */
    public static Value SolveN(Value A, Value b) {
        Value[] rows = elems(A), rhs = elems(b);
        int n = rows.length;
        Z[][] m = new Z[n][n + 1];
        for (int i = 0; i < n; i++) {
            Value[] r = elems(rows[i]);
            if (r.length != n) throw new RuntimeException("MP.SolveN: not square");
            for (int j = 0; j < n; j++) m[i][j] = num(r[j]);
            m[i][n] = num(rhs[i]);
        }
        for (int c = 0; c < n; c++) {
            int p = c;
            for (int i = c + 1; i < n; i++) { R x = zabs(m[i][c]), y = zabs(m[p][c]); if (!x.fin() || !y.fin()) return nans(n); if (cmp(x, y) > 0) p = i; }
            Z[] t = m[c]; m[c] = m[p]; m[p] = t;
            if (zabs(m[c][c]).zero() || !zabs(m[c][c]).fin()) return nans(n);
            for (int i = c + 1; i < n; i++) {
                if (m[i][c].re.zero() && m[i][c].im.zero()) continue;
                Z f = zdiv(m[i][c], m[c][c]);
                for (int j = c; j <= n; j++) m[i][j] = zsub(m[i][j], zmul(f, m[c][j]));
            }
        }
        Value[] x = new Value[n];
        Z[] v = new Z[n];
        for (int i = n - 1; i >= 0; i--) {
            Z a = m[i][n];
            for (int j = i + 1; j < n; j++) a = zsub(a, zmul(m[i][j], v[j]));
            v[i] = zdiv(a, m[i][i]);
            x[i] = val(v[i]);
        }
        return new TupleValue(x);
    }
    /** Identity; evaluates a (nested) sequence completely, so that it is not evaluated again on every access. */
    public static Value Strict(Value v) {
        if (v instanceof tlc2.value.impl.FcnLambdaValue || v instanceof TupleValue || v instanceof tlc2.value.impl.FcnRcdValue) {
            Value t = v.toTuple();
            if (t == null) return v;
            Value[] e = ((TupleValue) t).elems, out = new Value[e.length];
            for (int i = 0; i < e.length; i++) out[i] = Strict(e[i]);
            return new TupleValue(out);
        }
        return v;
    }
    /** Inverse matrix (nan if singular). */
    public static Value InvN(Value A) {
        Value[] rows = elems(A);
        int n = rows.length;
        Z[][] m = new Z[n][2*n];
        for (int i = 0; i < n; i++) {
            Value[] r = elems(rows[i]);
            if (r.length != n) throw new RuntimeException("MP.InvN: not square");
            for (int j = 0; j < n; j++) { m[i][j] = num(r[j]); m[i][n + j] = i == j ? new Z(num(IntValue.gen(1)).re, ZERO) : new Z(ZERO, ZERO); }
        }
        boolean bad = false;
        for (int c = 0; c < n && !bad; c++) {
            int p = c;
            for (int i = c; i < n; i++) { R x = zabs(m[i][c]), y = zabs(m[p][c]); if (!x.fin() || !y.fin()) { bad = true; break; } if (cmp(x, y) > 0) p = i; }
            if (bad || zabs(m[p][c]).zero()) { bad = true; break; }
            Z[] t = m[c]; m[c] = m[p]; m[p] = t;
            Z piv = m[c][c];
            for (int j = 0; j < 2*n; j++) m[c][j] = zdiv(m[c][j], piv);
            for (int i = 0; i < n; i++) {
                if (i == c || (m[i][c].re.zero() && m[i][c].im.zero())) continue;
                Z f = m[i][c];
                for (int j = c; j < 2*n; j++) m[i][j] = zsub(m[i][j], zmul(f, m[c][j]));
            }
        }
        Value[] out = new Value[n];
        for (int i = 0; i < n; i++) {
            if (bad) { out[i] = nans(n); continue; }
            Value[] r = new Value[n];
            for (int j = 0; j < n; j++) r[j] = val(m[i][n + j]);
            out[i] = new TupleValue(r);
        }
        return new TupleValue(out);
    }
    static Value nans(int n) {
        Value[] x = new Value[n];
        for (int i = 0; i < n; i++) x[i] = val(NAN);
        return new TupleValue(x);
    }
    /** sequence of n numbers F... : roots of unity exp(2 pi i k/n), k = 0..n-1 */
    public static Value RootsOfUnity(Value nv) {
        int n = ((IntValue) nv).val;
        Value[] x = new Value[n];
        for (int k = 0; k < n; k++) {
            R[] cs = cossin(div(mul(of(2L * k), PI), of(n)));
            x[k] = val(new Z(cs[0], cs[1]));
        }
        return new TupleValue(x);
    }
    /** A B for matrices given as sequences of rows */
    public static Value MatMulN(Value A, Value B) {
        Value[] a = elems(A), b = elems(B);
        Z[][] x = new Z[a.length][], y = new Z[b.length][];
        for (int i = 0; i < a.length; i++) { Value[] r = elems(a[i]); x[i] = new Z[r.length]; for (int j = 0; j < r.length; j++) x[i][j] = num(r[j]); }
        for (int i = 0; i < b.length; i++) { Value[] r = elems(b[i]); y[i] = new Z[r.length]; for (int j = 0; j < r.length; j++) y[i][j] = num(r[j]); }
        int n = b.length == 0 ? 0 : y[0].length;
        Value[] out = new Value[a.length];
        for (int i = 0; i < a.length; i++) {
            if (x[i].length != b.length) throw new RuntimeException("MP.MatMulN: shapes");
            Value[] r = new Value[n];
            for (int j = 0; j < n; j++) {
                Z s = new Z(ZERO, ZERO);
                for (int k = 0; k < b.length; k++) s = zadd(s, zmul(x[i][k], y[k][j]));
                r[j] = val(s);
            }
            out[i] = new TupleValue(r);
        }
        return new TupleValue(out);
    }
    public static Value OdeTaylor(Value q, Value f, Value n) {
        Value[] qv = elems(q), fv = elems(f);
        int ord = qv.length - 1, cnt = ((IntValue) n).val;
        Z[][] c = new Z[qv.length][];
        for (int i = 0; i < qv.length; i++) { Value[] r = elems(qv[i]); c[i] = new Z[r.length]; for (int j = 0; j < r.length; j++) c[i][j] = num(r[j]); }
        Z[] a = new Z[Math.max(cnt, fv.length)];
        for (int i = 0; i < fv.length; i++) a[i] = num(fv[i]);
        for (int top = fv.length; top < cnt; top++) {
            Z s = new Z(ZERO, ZERO);
            for (int i = 0; i <= ord; i++) for (int m = 0; m < c[i].length; m++) {
                int k = top - ord - m + i;
                if (k < 0 || k >= top) continue;
                s = zadd(s, zmul(zmul(c[i][m], falling(k, i)), a[k]));
            }
            s = zdiv(s, zmul(c[ord][0], falling(top, ord)));
            a[top] = zsub(new Z(ZERO, ZERO), s);
        }
        Value[] out = new Value[a.length];
        for (int i = 0; i < a.length; i++) out[i] = val(a[i]);
        return new TupleValue(out);
    }
    private static Z falling(int k, int i) {
        long r = 1;
        for (int j = 0; j < i; j++) r *= (k - j);
        return num(IntValue.gen((int) r));
    }
    public static Value TaylorShift(Value f, Value h, Value m) { // i-th derivatives over i! at h, i < m
        Value[] fv = elems(f);
        int cnt = ((IntValue) m).val;
        Z x = num(h);
        Z[] c = new Z[fv.length];
        for (int i = 0; i < c.length; i++) c[i] = num(fv[i]);
        Value[] out = new Value[cnt];
        for (int i = 0; i < cnt; i++) { // repeated synthetic division
            for (int k = c.length - 2; k >= i; k--) c[k] = zadd(c[k], zmul(c[k + 1], x));
            out[i] = i < c.length ? val(c[i]) : val(ZERO);
        }
        return new TupleValue(out);
    }
}
