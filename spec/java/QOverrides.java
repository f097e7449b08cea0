import java.math.BigInteger;
import java.util.concurrent.ConcurrentHashMap;
import tlc2.overrides.ITLCOverrides;
import tlc2.overrides.TLAPlusOperator;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.IntValue;
import tlc2.value.impl.StringValue;
import tlc2.value.impl.Value;

/** Exact rational arithmetic for module BigRat: a rational is the string "n/d" in lowest terms, d > 0. */
public class QOverrides implements ITLCOverrides {
  @SuppressWarnings("rawtypes")
  @Override
  public Class[] get() {
    return new Class[] {QOverrides.class};
  }

  private static final class R {
    final BigInteger n;
    final BigInteger d;

    R(BigInteger n, BigInteger d) {
      if (d.signum() == 0) throw new ArithmeticException("BigRat: division by zero");
      if (d.signum() < 0) {
        n = n.negate();
        d = d.negate();
      }
      BigInteger g = n.gcd(d);
      if (!g.equals(BigInteger.ONE)) {
        n = n.divide(g);
        d = d.divide(g);
      }
      this.n = n;
      this.d = d;
    }
  }

  private static R of(Value v) {
    if (v instanceof IntValue) {
      return new R(BigInteger.valueOf(((IntValue) v).val), BigInteger.ONE);
    }
    return parse(((StringValue) v).val.toString());
  }

  /** "n/d", "n" or the exact dyadic "mpe" meaning m * 2^e. */
  private static R parse(String s) {
    int p = s.indexOf('p');
    if (p >= 0) {
      BigInteger m = new BigInteger(s.substring(0, p));
      int e = Integer.parseInt(s.substring(p + 1));
      return e >= 0 ? new R(m.shiftLeft(e), BigInteger.ONE) : new R(m, BigInteger.ONE.shiftLeft(-e));
    }
    int q = s.indexOf('/');
    if (q < 0) return new R(new BigInteger(s), BigInteger.ONE);
    return new R(new BigInteger(s.substring(0, q)), new BigInteger(s.substring(q + 1)));
  }

  private static Value out(R r) {
    // Not interned: fresh StringValue objects compare by their text through UniqueString.
    return new StringValue(r.n.toString() + "/" + r.d.toString());
  }

  @TLAPlusOperator(identifier = "RNorm", module = "BigRat", warn = false)
  public static Value norm(Value a) {
    return out(of(a));
  }

  @TLAPlusOperator(identifier = "RAdd", module = "BigRat", warn = false)
  public static Value add(Value a, Value b) {
    R x = of(a), y = of(b);
    return out(new R(x.n.multiply(y.d).add(y.n.multiply(x.d)), x.d.multiply(y.d)));
  }

  @TLAPlusOperator(identifier = "RSub", module = "BigRat", warn = false)
  public static Value sub(Value a, Value b) {
    R x = of(a), y = of(b);
    return out(new R(x.n.multiply(y.d).subtract(y.n.multiply(x.d)), x.d.multiply(y.d)));
  }

  @TLAPlusOperator(identifier = "RMul", module = "BigRat", warn = false)
  public static Value mul(Value a, Value b) {
    R x = of(a), y = of(b);
    return out(new R(x.n.multiply(y.n), x.d.multiply(y.d)));
  }

  @TLAPlusOperator(identifier = "RDiv", module = "BigRat", warn = false)
  public static Value div(Value a, Value b) {
    R x = of(a), y = of(b);
    return out(new R(x.n.multiply(y.d), x.d.multiply(y.n)));
  }

  @TLAPlusOperator(identifier = "RCmp", module = "BigRat", warn = false)
  public static Value cmp(Value a, Value b) {
    R x = of(a), y = of(b);
    return IntValue.gen(x.n.multiply(y.d).compareTo(y.n.multiply(x.d)));
  }

  @TLAPlusOperator(identifier = "RFloor", module = "BigRat", warn = false)
  public static Value floor(Value a) {
    R x = of(a);
    BigInteger[] qr = x.n.divideAndRemainder(x.d);
    BigInteger q = qr[1].signum() < 0 ? qr[0].subtract(BigInteger.ONE) : qr[0];
    return out(new R(q, BigInteger.ONE));
  }

  @TLAPlusOperator(identifier = "RPow2", module = "BigRat", warn = false)
  public static Value pow2(Value a) {
    int e = ((IntValue) a).val;
    return out(
        e >= 0
            ? new R(BigInteger.ONE.shiftLeft(e), BigInteger.ONE)
            : new R(BigInteger.ONE, BigInteger.ONE.shiftLeft(-e)));
  }
}
