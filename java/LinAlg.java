// TLC module override for spec/LinAlg.tla (MMul and GJ); same definitions, faster.
import java.math.BigInteger;
import tlc2.value.impl.BoolValue;
import tlc2.value.impl.RecordValue;
import tlc2.value.impl.TupleValue;
import tlc2.value.impl.Value;
import util.UniqueString;

public class LinAlg {
    static Rat.Q[][] mat(Value a) {
        Value[] rows = Rat.seq(a);
        Rat.Q[][] m = new Rat.Q[rows.length][];
        for (int i = 0; i < rows.length; i++) {
            Value[] r = Rat.seq(rows[i]);
            m[i] = new Rat.Q[r.length];
            for (int j = 0; j < r.length; j++) m[i][j] = Rat.q(r[j]);
        }
        return m;
    }
    static Value val(Rat.Q[][] m) {
        Value[] rows = new Value[m.length];
        for (int i = 0; i < m.length; i++) {
            Value[] r = new Value[m[i].length];
            for (int j = 0; j < r.length; j++) r[j] = Rat.v(m[i][j]);
            rows[i] = new TupleValue(r);
        }
        return new TupleValue(rows);
    }
    static final Rat.Q ZERO = new Rat.Q(BigInteger.ZERO, BigInteger.ONE), ONE = new Rat.Q(BigInteger.ONE, BigInteger.ONE);

    public static Value MMul(Value a, Value b) {
        Rat.Q[][] x = mat(a), y = mat(b);
        int n = x.length, k = y.length, m = k == 0 ? 0 : y[0].length;
        Rat.Q[][] r = new Rat.Q[n][m];
        for (int i = 0; i < n; i++) {
            if (x[i].length != k) throw new RuntimeException("LinAlg: MMul of incompatible matrices");
            for (int j = 0; j < m; j++) {
                Rat.Q s = ZERO;
                for (int l = 0; l < k; l++) s = s.add(x[i][l].mul(y[l][j]));
                r[i][j] = s;
            }
        }
        return val(r);
    }

    public static Value GJ(Value a) {
        Rat.Q[][] x = mat(a);
        int n = x.length;
        Rat.Q[][] A = new Rat.Q[n][2 * n];
        for (int i = 0; i < n; i++) {
            if (x[i].length != n) throw new RuntimeException("LinAlg: GJ of a matrix that is not square");
            for (int j = 0; j < 2 * n; j++) A[i][j] = j < n ? x[i][j] : (j == n + i ? ONE : ZERO);
        }
        Value[] piv = new Value[n];
        for (int k = 0; k < n; k++) {
            Rat.Q p = A[k][k];
            piv[k] = Rat.v(p);
            if (p.n.signum() <= 0) {
                Value[] pv = new Value[k + 1];
                System.arraycopy(piv, 0, pv, 0, k + 1);
                return rec(false, new TupleValue(new Value[0]), new TupleValue(pv));
            }
            Rat.Q[] rk = new Rat.Q[2 * n];
            for (int j = 0; j < 2 * n; j++) rk[j] = A[k][j].div(p);
            for (int i = 0; i < n; i++) {
                if (i == k) continue;
                Rat.Q f = A[i][k];
                if (f.n.signum() == 0) continue;
                for (int j = 0; j < 2 * n; j++) A[i][j] = A[i][j].add(f.mul(rk[j]).neg());
            }
            A[k] = rk;
        }
        Rat.Q[][] inv = new Rat.Q[n][n];
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) inv[i][j] = A[i][n + j];
        return rec(true, val(inv), new TupleValue(piv));
    }
    static Value rec(boolean ok, Value inv, Value piv) {
        return new RecordValue(
            new UniqueString[] {UniqueString.uniqueStringOf("inv"), UniqueString.uniqueStringOf("ok"), UniqueString.uniqueStringOf("piv")},
            new Value[] {inv, ok ? BoolValue.ValTrue : BoolValue.ValFalse, piv}, false);
    }
}
