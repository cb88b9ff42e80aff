package ffverif;

import java.math.BigInteger;
import java.util.HashMap;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.*;

/** Fast evaluation of the operators of BigNum.tla (whose TLA+ definitions remain the meaning; see BigNumTest). */
public class Ov implements ITLCOverrides {
  public Class[] get() { return new Class[] { Ov.class }; }

  static BigInteger b(Value v) { return new BigInteger(((StringValue) v).val.toString()); }
  static int i(Value v) { return ((IntValue) v).val; }
  static Value s(BigInteger x) { return new StringValue(x.toString()); }

  @TLAPlusOperator(identifier = "BAdd", module = "BigNum", warn = false)
  public static Value BAdd(Value x, Value y) { return s(b(x).add(b(y))); }
  @TLAPlusOperator(identifier = "BSub", module = "BigNum", warn = false)
  public static Value BSub(Value x, Value y) { return s(b(x).subtract(b(y))); }
  @TLAPlusOperator(identifier = "BMul", module = "BigNum", warn = false)
  public static Value BMul(Value x, Value y) { return s(b(x).multiply(b(y))); }
  // Euclidean for positive divisors: x = y*BDiv + BMod, 0 <= BMod < y
  @TLAPlusOperator(identifier = "BDiv", module = "BigNum", warn = false)
  public static Value BDiv(Value x, Value y) { BigInteger m = b(y); return s(b(x).subtract(b(x).mod(m)).divide(m)); }
  @TLAPlusOperator(identifier = "BMod", module = "BigNum", warn = false)
  public static Value BMod(Value x, Value y) { return s(b(x).mod(b(y))); }
  @TLAPlusOperator(identifier = "BCmp", module = "BigNum", warn = false)
  public static Value BCmp(Value x, Value y) { return IntValue.gen(b(x).compareTo(b(y))); }
  @TLAPlusOperator(identifier = "BGcd", module = "BigNum", warn = false)
  public static Value BGcd(Value x, Value y) { return s(b(x).gcd(b(y))); }
  @TLAPlusOperator(identifier = "BPow", module = "BigNum", warn = false)
  public static Value BPow(Value x, Value y) { return s(b(x).pow(i(y))); }
  @TLAPlusOperator(identifier = "BAddM", module = "BigNum", warn = false)
  public static Value BAddM(Value x, Value y, Value m) { return s(b(x).add(b(y)).mod(b(m))); }
  @TLAPlusOperator(identifier = "BSubM", module = "BigNum", warn = false)
  public static Value BSubM(Value x, Value y, Value m) { return s(b(x).subtract(b(y)).mod(b(m))); }
  @TLAPlusOperator(identifier = "BMulM", module = "BigNum", warn = false)
  public static Value BMulM(Value x, Value y, Value m) { return s(b(x).multiply(b(y)).mod(b(m))); }
  @TLAPlusOperator(identifier = "BPowM", module = "BigNum", warn = false)
  public static Value BPowM(Value x, Value e, Value m) { return s(b(x).modPow(b(e), b(m))); }
  @TLAPlusOperator(identifier = "BInvM", module = "BigNum", warn = false)
  public static Value BInvM(Value x, Value m) {
    BigInteger p = b(m), a = b(x).mod(p);
    if (!a.gcd(p).equals(BigInteger.ONE)) return s(BigInteger.ZERO);
    return s(p.equals(BigInteger.ONE) ? BigInteger.ZERO : a.modInverse(p));
  }
  @TLAPlusOperator(identifier = "BToInt", module = "BigNum", warn = false)
  public static Value BToInt(Value x) { return IntValue.gen(b(x).intValueExact()); }
  @TLAPlusOperator(identifier = "BOfInt", module = "BigNum", warn = false)
  public static Value BOfInt(Value x) { return s(BigInteger.valueOf(i(x))); }

  // strings: the i-th character (1-based) as a string of length one, and the sequence of characters
  @TLAPlusOperator(identifier = "Chars", module = "BigNum", warn = false)
  public static Value Chars(Value x) {
    String t = ((StringValue) x).val.toString();
    Value[] r = new Value[t.length()];
    for (int k = 0; k < r.length; ++k) r[k] = new StringValue(t.substring(k, k + 1));
    return new TupleValue(r);
  }

  // ---- integer polynomials: sets of <<exponent tuple, coefficient>> without zero coefficients (module PolyZ)
  static java.util.TreeMap<String, Object[]> acc() { return new java.util.TreeMap<String, Object[]>(); }
  static int[] exps(Value v) {
    TupleValue t = (TupleValue) v.toTuple();
    int[] r = new int[t.elems.length];
    for (int k = 0; k < r.length; ++k) r[k] = i(t.elems[k]);
    return r;
  }
  static java.util.List<Object[]> terms(Value p) {
    SetEnumValue s = (SetEnumValue) p.toSetEnum();
    java.util.List<Object[]> r = new java.util.ArrayList<Object[]>();
    for (int k = 0; k < s.elems.size(); ++k) {
      TupleValue t = (TupleValue) ((Value) s.elems.elementAt(k)).toTuple();
      r.add(new Object[] { exps(t.elems[0]), b(t.elems[1]) });
    }
    return r;
  }
  static void put(java.util.Map<String, Object[]> m, int[] e, BigInteger c) {
    String k = java.util.Arrays.toString(e);
    Object[] o = m.get(k);
    if (o == null) m.put(k, new Object[] { e, c }); else o[1] = ((BigInteger) o[1]).add(c);
  }
  static Value toSet(java.util.Map<String, Object[]> m) {
    ValueVec v = new ValueVec();
    for (Object[] o : m.values()) if (((BigInteger) o[1]).signum() != 0) {
      int[] e = (int[]) o[0];
      Value[] x = new Value[e.length];
      for (int k = 0; k < e.length; ++k) x[k] = IntValue.gen(e[k]);
      v.addElement(new TupleValue(new Value[] { new TupleValue(x), s((BigInteger) o[1]) }));
    }
    SetEnumValue r = new SetEnumValue(v, false);
    r.normalize();
    return r;
  }
  @TLAPlusOperator(identifier = "PMul", module = "PolyZ", warn = false)
  public static Value PMul(Value p, Value q) {
    java.util.TreeMap<String, Object[]> m = acc();
    java.util.List<Object[]> P = terms(p), Q = terms(q);
    for (Object[] x : P) for (Object[] y : Q) {
      int[] a = (int[]) x[0], c = (int[]) y[0], e = new int[a.length];
      for (int k = 0; k < e.length; ++k) e[k] = a[k] + c[k];
      put(m, e, ((BigInteger) x[1]).multiply((BigInteger) y[1]));
    }
    return toSet(m);
  }
  @TLAPlusOperator(identifier = "PAdd", module = "PolyZ", warn = false)
  public static Value PAdd(Value p, Value q) {
    java.util.TreeMap<String, Object[]> m = acc();
    for (Object[] x : terms(p)) put(m, (int[]) x[0], (BigInteger) x[1]);
    for (Object[] x : terms(q)) put(m, (int[]) x[0], (BigInteger) x[1]);
    return toSet(m);
  }
  @TLAPlusOperator(identifier = "PScale", module = "PolyZ", warn = false)
  public static Value PScale(Value p, Value c) {
    java.util.TreeMap<String, Object[]> m = acc();
    for (Object[] x : terms(p)) put(m, (int[]) x[0], ((BigInteger) x[1]).multiply(b(c)));
    return toSet(m);
  }
  @TLAPlusOperator(identifier = "PModP", module = "PolyZ", warn = false)
  public static Value PModP(Value p, Value c) {
    java.util.TreeMap<String, Object[]> m = acc();
    for (Object[] x : terms(p)) put(m, (int[]) x[0], ((BigInteger) x[1]).mod(b(c)));
    return toSet(m);
  }
  @TLAPlusOperator(identifier = "PEvalM", module = "PolyZ", warn = false)
  public static Value PEvalM(Value p, Value x, Value m) {
    TupleValue t = (TupleValue) x.toTuple();
    BigInteger M = b(m), r = BigInteger.ZERO;
    for (Object[] o : terms(p)) {
      BigInteger v = (BigInteger) o[1];
      int[] e = (int[]) o[0];
      for (int k = 0; k < e.length; ++k) v = v.multiply(b(t.elems[k]).modPow(BigInteger.valueOf(e[k]), M)).mod(M);
      r = r.add(v);
    }
    return s(r.mod(M));
  }

  // ---- expressions (module Expr); null: malformed, UNDEF: a division by zero
  static final BigInteger UNDEF = BigInteger.ONE.negate();
  static final class Ex {
    String s; int i = 0; java.util.HashMap<String, BigInteger> env = new java.util.HashMap<String, BigInteger>(); BigInteger p;
    char at(int k) { return k < s.length() ? s.charAt(k) : '$'; }
    static boolean dig(char c) { return c >= '0' && c <= '9'; }
    static boolean let(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
    BigInteger u(BigInteger a, BigInteger b, BigInteger v) { return a == UNDEF || b == UNDEF ? UNDEF : v.mod(p); }
    int signEnd() { if (at(i) == '+' || at(i) == '-') { char c = at(i + 1); return (c == '+' || c == '-') && c != at(i) ? i + 2 : i + 1; } return i; }
    BigInteger sum() {
      int j = signEnd();
      boolean m = j == i + 2 || (j == i + 1 && at(i) == '-');
      i = j;
      BigInteger r = prod();
      if (r == null) return null;
      if (m) r = u(r, r, r.negate());
      while (at(i) == '+' || at(i) == '-') {
        j = signEnd();
        m = j == i + 2 || at(i) == '-';
        i = j;
        BigInteger t = prod();
        if (t == null) return null;
        r = u(r, t, m ? r.subtract(t) : r.add(t));
      }
      return r;
    }
    BigInteger prod() {
      BigInteger r = fact();
      if (r == null) return null;
      while (at(i) == '*' || at(i) == '/') {
        boolean d = at(i) == '/';
        ++i;
        BigInteger f = fact();
        if (f == null) return null;
        if (!d) r = u(r, f, r.multiply(f));
        else if (f == UNDEF || r == UNDEF || f.signum() == 0) r = UNDEF;
        else r = r.multiply(f.modInverse(p)).mod(p);
      }
      return r;
    }
    BigInteger fact() {
      BigInteger r = atom();
      if (r == null || at(i) != '^') return r;
      ++i;
      boolean par = at(i) == '(', neg = false;
      if (par) { ++i; if (at(i) == '+' || at(i) == '-') { neg = at(i) == '-'; ++i; } }
      int k = i;
      while (dig(at(i))) ++i;
      if (k == i) return null;
      BigInteger e = new BigInteger(s.substring(k, i));
      if (par) { if (at(i) != ')') return null; ++i; }
      if (r == UNDEF) return UNDEF;
      if (neg && e.signum() != 0) { if (r.signum() == 0) return UNDEF; r = r.modInverse(p); }
      return r.modPow(e, p);
    }
    BigInteger atom() {
      if (at(i) == '(') { ++i; BigInteger r = sum(); if (r == null || at(i) != ')') return null; ++i; return r; }
      int k = i;
      if (dig(at(i))) { while (dig(at(i))) ++i; return new BigInteger(s.substring(k, i)).mod(p); }
      if (let(at(i))) { while (dig(at(i)) || let(at(i))) ++i; return env.get(s.substring(k, i)); }
      return null;
    }
  }
  @TLAPlusOperator(identifier = "EvalExpr", module = "Expr", warn = false)
  public static Value EvalExpr(Value x, Value vars, Value vals, Value p) {
    Ex e = new Ex();
    e.s = ((StringValue) x).val.toString();
    e.p = b(p);
    TupleValue a = (TupleValue) vars.toTuple(), c = (TupleValue) vals.toTuple();
    for (int k = 0; k < a.elems.length; ++k) e.env.put(((StringValue) a.elems[k]).val.toString(), b(c.elems[k]).mod(e.p));
    BigInteger r = e.sum();
    if (r == null || e.i != e.s.length()) return new StringValue("malformed");
    return r == UNDEF ? new StringValue("undef") : s(r);
  }
}
