// TLC module override for spec/Rat.tla: exact rational arithmetic.
//
// A number is a TLA+ string.  Accepted spellings: hexadecimal floating point
// ("0x1.8p-3", what Python's float.hex() writes: the recorded doubles, taken
// exactly), decimal ("1e-9", "0.25", "7"), and the canonical form the
// operators return: "p/q" in base 16 with a leading "#" (lowest terms).
import java.math.BigDecimal;
import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.value.impl.*;
import util.UniqueString;

public class Rat {
  static final class Q {
    final BigInteger n, d;
    Q(BigInteger n, BigInteger d) { this.n = n; this.d = d; }
    static final Q ZERO = new Q(BigInteger.ZERO, BigInteger.ONE);
    static final Q ONE = new Q(BigInteger.ONE, BigInteger.ONE);
    static boolean pow2(BigInteger x) { return x.signum() > 0 && x.getLowestSetBit() == x.bitLength() - 1; }
    static Q make(BigInteger n, BigInteger d) {
      if (d.signum() == 0) throw new ArithmeticException("Rat: zero denominator");
      if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
      if (n.signum() == 0) return ZERO;
      if (pow2(d)) {
        int s = Math.min(n.getLowestSetBit(), d.getLowestSetBit());
        return s == 0 ? new Q(n, d) : new Q(n.shiftRight(s), d.shiftRight(s));
      }
      BigInteger g = n.gcd(d);
      return g.equals(BigInteger.ONE) ? new Q(n, d) : new Q(n.divide(g), d.divide(g));
    }
    Q add(Q o) {
      if (n.signum() == 0) return o;
      if (o.n.signum() == 0) return this;
      if (pow2(d) && pow2(o.d)) {
        int a = d.getLowestSetBit(), b = o.d.getLowestSetBit();
        if (a >= b) return make(n.add(o.n.shiftLeft(a - b)), d);
        return make(n.shiftLeft(b - a).add(o.n), o.d);
      }
      if (d.equals(o.d)) return make(n.add(o.n), d);
      return make(n.multiply(o.d).add(o.n.multiply(d)), d.multiply(o.d));
    }
    Q neg() { return new Q(n.negate(), d); }
    Q sub(Q o) { return add(o.neg()); }
    Q mul(Q o) { return make(n.multiply(o.n), d.multiply(o.d)); }
    Q div(Q o) { return make(n.multiply(o.d), d.multiply(o.n)); }
    Q abs() { return n.signum() < 0 ? neg() : this; }
    int cmp(Q o) { return n.multiply(o.d).compareTo(o.n.multiply(d)); }
  }

  static final class RatValue extends StringValue {
    final Q q;
    RatValue(Q q) { super("#" + q.n.toString(16) + "/" + q.d.toString(16)); this.q = q; }
  }

  static final ConcurrentHashMap<String, Object> cache = new ConcurrentHashMap<>();
  static final Object NONFINITE = new Object();

  static Object parse(String s) {
    String t = s.trim();
    if (t.startsWith("#")) {
      int k = t.indexOf('/');
      return Q.make(new BigInteger(t.substring(1, k), 16), new BigInteger(t.substring(k + 1), 16));
    }
    String l = t.toLowerCase();
    if (l.equals("nan") || l.equals("inf") || l.equals("-inf") || l.equals("infinity") || l.equals("-infinity"))
      return NONFINITE;
    if (l.indexOf('x') >= 0) {
      double v = Double.parseDouble(l);
      if (v == 0) return Q.ZERO;
      long bits = Double.doubleToLongBits(v);
      int e = (int) ((bits >> 52) & 0x7ff);
      long m = bits & 0xfffffffffffffL;
      if (e == 0) e = 1; else m |= 0x10000000000000L;
      e -= 1075;
      BigInteger n = BigInteger.valueOf(bits < 0 ? -m : m);
      return e >= 0 ? Q.make(n.shiftLeft(e), BigInteger.ONE) : Q.make(n, BigInteger.ONE.shiftLeft(-e));
    }
    int k = l.indexOf('/');
    if (k >= 0) return Q.make(new BigInteger(l.substring(0, k)), new BigInteger(l.substring(k + 1)));
    BigDecimal b = new BigDecimal(l);
    if (b.scale() <= 0) return Q.make(b.unscaledValue().multiply(BigInteger.TEN.pow(-b.scale())), BigInteger.ONE);
    return Q.make(b.unscaledValue(), BigInteger.TEN.pow(b.scale()));
  }
  static Object raw(Value v) {
    if (v instanceof RatValue) return ((RatValue) v).q;
    if (v instanceof IntValue) return Q.make(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
    String u = ((StringValue) v).val.toString();
    Object o = cache.get(u);
    if (o == null) {
      o = parse(u);
      if (cache.size() > 500000) cache.clear();
      cache.put(u, o);
    }
    return o;
  }
  static Q q(Value v) {
    Object o = raw(v);
    if (o == NONFINITE) throw new ArithmeticException("Rat: arithmetic on a non-finite number");
    return (Q) o;
  }
  static Value val(Q q) { return new RatValue(q); }
  static Value bool(boolean b) { return b ? BoolValue.ValTrue : BoolValue.ValFalse; }

  // vectors and matrices
  static Value[] elems(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    if (t == null) throw new IllegalArgumentException("Rat: a sequence was expected, got " + v);
    return t.elems;
  }
  static Q[] vec(Value v) {
    Value[] e = elems(v);
    Q[] r = new Q[e.length];
    for (int i = 0; i < r.length; i++) r[i] = q(e[i]);
    return r;
  }
  static Q[][] mat(Value v) {
    Value[] e = elems(v);
    Q[][] r = new Q[e.length][];
    for (int i = 0; i < r.length; i++) r[i] = vec(e[i]);
    return r;
  }
  static Value vval(Q[] v) {
    Value[] e = new Value[v.length];
    for (int i = 0; i < e.length; i++) e[i] = val(v[i]);
    return new TupleValue(e);
  }
  static Value mval(Q[][] m) {
    Value[] e = new Value[m.length];
    for (int i = 0; i < e.length; i++) e[i] = vval(m[i]);
    return new TupleValue(e);
  }

  // scalars
  public static Value RFin(Value a) { return bool(raw(a) != NONFINITE); }
  public static Value RNorm(Value a) { return val(q(a)); }
  public static Value RFrac(Value a, Value b) { return val(q(a).div(q(b))); }
  public static Value RAdd(Value a, Value b) { return val(q(a).add(q(b))); }
  public static Value RSub(Value a, Value b) { return val(q(a).sub(q(b))); }
  public static Value RMul(Value a, Value b) { return val(q(a).mul(q(b))); }
  public static Value RDiv(Value a, Value b) { return val(q(a).div(q(b))); }
  public static Value RNeg(Value a) { return val(q(a).neg()); }
  public static Value RAbs(Value a) { return val(q(a).abs()); }
  public static Value RLeq(Value a, Value b) { return bool(q(a).cmp(q(b)) <= 0); }
  public static Value RLt(Value a, Value b) { return bool(q(a).cmp(q(b)) < 0); }
  public static Value REq(Value a, Value b) { return bool(q(a).cmp(q(b)) == 0); }
  // lower approximation of the square root, relative error below 2^-100
  public static Value RSqrt(Value a) {
    Q x = q(a);
    if (x.n.signum() <= 0) return val(Q.ZERO);
    int s = 220 - (x.n.bitLength() - x.d.bitLength());
    if (s < 0) s = 0;
    if ((s & 1) == 1) s++;
    BigInteger r = x.n.shiftLeft(s).divide(x.d).sqrt();
    return val(Q.make(r, BigInteger.ONE.shiftLeft(s / 2)));
  }
  // nearest multiple of a power of two keeping about 200 significant bits
  public static Value RTrim(Value a) { return val(trim(q(a))); }
  static Q trim(Q x) {
    if (x.n.signum() == 0 || x.n.bitLength() + x.d.bitLength() < 500) return x;
    int s = 200 - (x.n.bitLength() - x.d.bitLength());
    if (s < 0) return x;
    BigInteger m = x.n.shiftLeft(s + 1).divide(x.d);
    m = m.add(BigInteger.ONE).shiftRight(1);
    return Q.make(m, BigInteger.ONE.shiftLeft(s));
  }
  public static Value RShow(Value a) {
    Object o = raw(a);
    if (o == NONFINITE) return a;
    Q x = (Q) o;
    return new StringValue(new BigDecimal(x.n).divide(new BigDecimal(x.d), new java.math.MathContext(8)).toString());
  }

  // vectors
  public static Value VFin(Value a) {
    for (Value e : elems(a)) if (raw(e) == NONFINITE) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  public static Value VAdd(Value a, Value b) {
    Q[] x = vec(a), y = vec(b), r = new Q[x.length];
    for (int i = 0; i < r.length; i++) r[i] = x[i].add(y[i]);
    return vval(r);
  }
  public static Value VSub(Value a, Value b) {
    Q[] x = vec(a), y = vec(b), r = new Q[x.length];
    for (int i = 0; i < r.length; i++) r[i] = x[i].sub(y[i]);
    return vval(r);
  }
  public static Value VScale(Value c, Value a) {
    Q[] x = vec(a), r = new Q[x.length];
    Q s = q(c);
    for (int i = 0; i < r.length; i++) r[i] = s.mul(x[i]);
    return vval(r);
  }
  static Q dot(Q[] x, Q[] y) {
    Q s = Q.ZERO;
    if (x.length != y.length) throw new IllegalArgumentException("Rat: vector lengths differ");
    for (int i = 0; i < x.length; i++) s = s.add(x[i].mul(y[i]));
    return s;
  }
  public static Value VDot(Value a, Value b) { return val(dot(vec(a), vec(b))); }
  public static Value VSum(Value a) { Q s = Q.ZERO; for (Q x : vec(a)) s = s.add(x); return val(s); }
  public static Value VMaxAbs(Value a) {
    Q s = Q.ZERO;
    for (Q x : vec(a)) { Q y = x.abs(); if (y.cmp(s) > 0) s = y; }
    return val(s);
  }
  public static Value VMax(Value a) {
    Q s = null;
    for (Q x : vec(a)) if (s == null || x.cmp(s) > 0) s = x;
    return val(s);
  }
  public static Value VMin(Value a) {
    Q s = null;
    for (Q x : vec(a)) if (s == null || x.cmp(s) < 0) s = x;
    return val(s);
  }

  // matrices (sequences of rows)
  public static Value MFin(Value a) {
    for (Value r : elems(a)) for (Value e : elems(r)) if (raw(e) == NONFINITE) return BoolValue.ValFalse;
    return BoolValue.ValTrue;
  }
  public static Value MAdd(Value a, Value b) {
    Q[][] x = mat(a), y = mat(b), r = new Q[x.length][];
    for (int i = 0; i < r.length; i++) {
      r[i] = new Q[x[i].length];
      for (int j = 0; j < r[i].length; j++) r[i][j] = x[i][j].add(y[i][j]);
    }
    return mval(r);
  }
  public static Value MSub(Value a, Value b) {
    Q[][] x = mat(a), y = mat(b), r = new Q[x.length][];
    for (int i = 0; i < r.length; i++) {
      r[i] = new Q[x[i].length];
      for (int j = 0; j < r[i].length; j++) r[i][j] = x[i][j].sub(y[i][j]);
    }
    return mval(r);
  }
  public static Value MScale(Value c, Value a) {
    Q[][] x = mat(a), r = new Q[x.length][];
    Q s = q(c);
    for (int i = 0; i < r.length; i++) {
      r[i] = new Q[x[i].length];
      for (int j = 0; j < r[i].length; j++) r[i][j] = s.mul(x[i][j]);
    }
    return mval(r);
  }
  static Q[][] tr(Q[][] x) {
    int n = x.length, m = n == 0 ? 0 : x[0].length;
    Q[][] r = new Q[m][n];
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r[j][i] = x[i][j];
    return r;
  }
  public static Value MT(Value a) { return mval(tr(mat(a))); }
  public static Value MMul(Value a, Value b) {
    Q[][] x = mat(a), y = tr(mat(b)), r = new Q[x.length][y.length];
    for (int i = 0; i < x.length; i++) for (int j = 0; j < y.length; j++) r[i][j] = dot(x[i], y[j]);
    return mval(r);
  }
  public static Value MDot(Value a, Value b) {
    Q[][] x = mat(a), y = mat(b);
    Q s = Q.ZERO;
    if (x.length != y.length) throw new IllegalArgumentException("Rat: matrix shapes differ");
    for (int i = 0; i < x.length; i++) s = s.add(dot(x[i], y[i]));
    return val(s);
  }
  public static Value MTrace(Value a) {
    Q[][] x = mat(a);
    Q s = Q.ZERO;
    for (int i = 0; i < x.length; i++) s = s.add(x[i][i]);
    return val(s);
  }
  public static Value MSum(Value a) {
    Q s = Q.ZERO;
    for (Q[] r : mat(a)) for (Q x : r) s = s.add(x);
    return val(s);
  }
  public static Value MMaxAbs(Value a) {
    Q s = Q.ZERO;
    for (Q[] r : mat(a)) for (Q x : r) { Q y = x.abs(); if (y.cmp(s) > 0) s = y; }
    return val(s);
  }
  public static Value MTrim(Value a) {
    Q[][] x = mat(a), r = new Q[x.length][];
    for (int i = 0; i < r.length; i++) {
      r[i] = new Q[x[i].length];
      for (int j = 0; j < r[i].length; j++) r[i][j] = trim(x[i][j]);
    }
    return mval(r);
  }
  // the solution of A z = B for a non-singular square A, <<>> when A is singular
  public static Value MSolve(Value a, Value b) {
    Q[][] x = mat(a), y = mat(b);
    int n = x.length, m = n == 0 ? 0 : y[0].length;
    for (int c = 0; c < n; c++) {
      int p = -1;
      for (int i = c; i < n; i++) if (x[i][c].n.signum() != 0) { p = i; break; }
      if (p < 0) return new TupleValue(new Value[0]);
      Q[] t = x[p]; x[p] = x[c]; x[c] = t;
      t = y[p]; y[p] = y[c]; y[c] = t;
      for (int i = c + 1; i < n; i++) {
        if (x[i][c].n.signum() == 0) continue;
        Q f = x[i][c].div(x[c][c]);
        for (int j = c; j < n; j++) x[i][j] = x[i][j].sub(f.mul(x[c][j]));
        for (int j = 0; j < m; j++) y[i][j] = y[i][j].sub(f.mul(y[c][j]));
      }
    }
    Q[][] r = new Q[n][m];
    for (int i = n - 1; i >= 0; i--)
      for (int j = 0; j < m; j++) {
        Q s = y[i][j];
        for (int k = i + 1; k < n; k++) s = s.sub(x[i][k].mul(r[k][j]));
        r[i][j] = s.div(x[i][i]);
      }
    return mval(r);
  }
}
