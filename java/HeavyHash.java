import tlc2.value.impl.*;

/** Java twin of the rank computation of spec/HeavyHash.tla. */
public class HeavyHash {
  public static Value RankMod(Value mat, Value pv) {
    Value[] rows = Words.el(mat);
    int n = rows.length;
    long p = Words.in(pv);
    long[][] m = new long[n][];
    for (int i = 0; i < n; i++) {
      int[] r = Words.ints(rows[i]);
      m[i] = new long[r.length];
      for (int k = 0; k < r.length; k++) m[i][k] = r[k] % p;
    }
    int rank = 0;
    boolean[] used = new boolean[n];
    for (int c = 0; c < n; c++) {
      int j = 0;
      while (j < n && (used[j] || m[j][c] == 0)) j++;
      if (j == n) continue;
      used[j] = true;
      rank++;
      long inv = 1, b = m[j][c];
      for (long e = p - 2; e > 0; e >>= 1, b = b * b % p) if ((e & 1) == 1) inv = inv * b % p;
      for (int k = 0; k < n; k++) {
        if (k == j || m[k][c] == 0) continue;
        long f = (p - m[k][c]) * inv % p;
        for (int x = 0; x < n; x++) m[k][x] = (m[k][x] + f * m[j][x]) % p;
      }
    }
    return IntValue.gen(rank);
  }
}
