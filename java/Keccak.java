import tlc2.value.impl.*;

/** Java twin of the permutations of spec/Keccak.tla. */
public class Keccak {
  static final long[] RC = {0x1L, 0x8082L, 0x800000000000808aL, 0x8000000080008000L, 0x808bL, 0x80000001L,
    0x8000000080008081L, 0x8000000000008009L, 0x8aL, 0x88L, 0x80008009L, 0x8000000aL, 0x8000808bL,
    0x800000000000008bL, 0x8000000000008089L, 0x8000000000008003L, 0x8000000000008002L, 0x8000000000000080L,
    0x800aL, 0x800000008000000aL, 0x8000000080008081L, 0x8000000000008080L, 0x80000001L, 0x8000000080008008L};
  static final int[] RHO = {0, 1, 62, 28, 27, 36, 44, 6, 55, 20, 3, 10, 43, 25, 39, 41, 45, 15, 21, 8, 18, 2, 61, 56, 14};

  static long rot(long x, int s, int w) {
    if (w == 64) return Long.rotateLeft(x, s);
    return Integer.rotateLeft((int) x, s) & 0xffffffffL;
  }
  static final int[] PI = new int[25], ROT = new int[25];
  static {
    for (int x = 0; x < 5; x++)
      for (int y = 0; y < 5; y++) {
        PI[5 * ((2 * x + 3 * y) % 5) + y] = 5 * y + x;
        ROT[5 * ((2 * x + 3 * y) % 5) + y] = RHO[5 * y + x];
      }
  }
  /** Keccak-f[1600], with b as scratch */
  static void f1600(long[] a, long[] b) {
    for (int r = 0; r < 24; r++) {
      long c0 = a[0] ^ a[5] ^ a[10] ^ a[15] ^ a[20], c1 = a[1] ^ a[6] ^ a[11] ^ a[16] ^ a[21], c2 = a[2] ^ a[7] ^ a[12] ^ a[17] ^ a[22],
           c3 = a[3] ^ a[8] ^ a[13] ^ a[18] ^ a[23], c4 = a[4] ^ a[9] ^ a[14] ^ a[19] ^ a[24];
      long d0 = c4 ^ Long.rotateLeft(c1, 1), d1 = c0 ^ Long.rotateLeft(c2, 1), d2 = c1 ^ Long.rotateLeft(c3, 1),
           d3 = c2 ^ Long.rotateLeft(c4, 1), d4 = c3 ^ Long.rotateLeft(c0, 1);
      for (int y = 0; y < 25; y += 5) { a[y] ^= d0; a[y + 1] ^= d1; a[y + 2] ^= d2; a[y + 3] ^= d3; a[y + 4] ^= d4; }
      for (int i = 0; i < 25; i++) b[i] = Long.rotateLeft(a[PI[i]], ROT[i]);
      for (int y = 0; y < 25; y += 5) {
        long b0 = b[y], b1 = b[y + 1], b2 = b[y + 2], b3 = b[y + 3], b4 = b[y + 4];
        a[y] = b0 ^ (~b1 & b2); a[y + 1] = b1 ^ (~b2 & b3); a[y + 2] = b2 ^ (~b3 & b4); a[y + 3] = b3 ^ (~b4 & b0); a[y + 4] = b4 ^ (~b0 & b1);
      }
      a[0] ^= RC[r];
    }
  }
  static void f(long[] a, int rounds, int w) {
    if (w == 64 && rounds == 24) { f1600(a, new long[25]); return; }
    long m = w == 64 ? -1L : 0xffffffffL;
    long[] b = new long[25], c = new long[5];
    for (int r = 0; r < rounds; r++) {
      for (int x = 0; x < 5; x++) c[x] = a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20];
      for (int x = 0; x < 5; x++) {
        long d = c[(x + 4) % 5] ^ rot(c[(x + 1) % 5], 1, w);
        for (int y = 0; y < 25; y += 5) a[y + x] ^= d;
      }
      for (int x = 0; x < 5; x++)
        for (int y = 0; y < 5; y++)
          b[5 * ((2 * x + 3 * y) % 5) + y] = rot(a[5 * y + x], RHO[5 * y + x] % w, w);
      for (int y = 0; y < 25; y += 5)
        for (int x = 0; x < 5; x++) a[y + x] = b[y + x] ^ (~b[y + (x + 1) % 5] & b[y + (x + 2) % 5] & m);
      a[0] ^= RC[r] & m;
    }
  }
  static Value perm(Value A, int rounds, int w) {
    Value[] e = Words.el(A);
    long[] s = new long[25];
    for (int i = 0; i < 25; i++) s[i] = Words.lng(e[i]);
    f(s, rounds, w);
    Value[] r = new Value[25];
    for (int i = 0; i < 25; i++) r[i] = Words.word(s[i], w / 16);
    return new TupleValue(r);
  }
  public static Value KeccakF1600(Value A) { return perm(A, 24, 64); }
  public static Value KeccakF800(Value A) { return perm(A, 22, 32); }
  /** sponge over a byte string, any output length */
  static byte[] sponge(byte[] m, int rate, int dom, int out) {
    byte[] p = new byte[m.length + rate - m.length % rate];
    System.arraycopy(m, 0, p, 0, m.length);
    p[m.length] |= (byte) dom;
    p[p.length - 1] |= (byte) 0x80;
    long[] s = new long[25];
    for (int o = 0; o < p.length; o += rate) {
      for (int i = 0; i < rate / 8; i++) {
        long x = 0;
        for (int k = 7; k >= 0; k--) x = x << 8 | (p[o + 8 * i + k] & 255);
        s[i] ^= x;
      }
      f(s, 24, 64);
    }
    byte[] r = new byte[out];
    for (int o = 0; o < out; o++) {
      if (o > 0 && o % rate == 0) f(s, 24, 64);
      r[o] = (byte) (s[(o % rate) / 8] >>> (8 * (o % 8)));
    }
    return r;
  }
  public static Value Sponge(Value m, Value rate, Value dom, Value out) {
    return Words.bytes(sponge(Words.tobytes(m), Words.in(rate), Words.in(dom), Words.in(out)));
  }
}
