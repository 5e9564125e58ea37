import tlc2.value.impl.*;

/** Java twins of spec/Blake2b.tla. */
public class Blake2b {
  static final long[] IV = {0x6a09e667f3bcc908L, 0xbb67ae8584caa73bL, 0x3c6ef372fe94f82bL, 0xa54ff53a5f1d36f1L,
    0x510e527fade682d1L, 0x9b05688c2b3e6c1fL, 0x1f83d9abfb41bd6bL, 0x5be0cd19137e2179L};
  static final String[] SIGMA = {"0123456789abcdef", "ea489fd61c02b753", "b8c052fdae367194", "7931dcbe265a40f8", "905724afe1bc683d",
    "2c6a0b834d75fe19", "c51fed4a0763928b", "db7ec13950f4862a", "6fe9b308c2d714a5", "a2847615fb9e3cd0"};

  static void g(long[] v, int a, int b, int c, int d, long x, long y) {
    v[a] += v[b] + x; v[d] = Long.rotateRight(v[d] ^ v[a], 32);
    v[c] += v[d];     v[b] = Long.rotateRight(v[b] ^ v[c], 24);
    v[a] += v[b] + y; v[d] = Long.rotateRight(v[d] ^ v[a], 16);
    v[c] += v[d];     v[b] = Long.rotateRight(v[b] ^ v[c], 63);
  }
  static void compress(long[] h, long[] m, long t, boolean last) {
    long[] v = new long[16];
    for (int i = 0; i < 8; i++) { v[i] = h[i]; v[i + 8] = IV[i]; }
    v[12] ^= t;
    if (last) v[14] = ~v[14];
    for (int r = 0; r < 12; r++) {
      String s = SIGMA[r % 10];
      long[] q = new long[16];
      for (int i = 0; i < 16; i++) q[i] = m[Character.digit(s.charAt(i), 16)];
      g(v, 0, 4, 8, 12, q[0], q[1]);   g(v, 1, 5, 9, 13, q[2], q[3]);
      g(v, 2, 6, 10, 14, q[4], q[5]);  g(v, 3, 7, 11, 15, q[6], q[7]);
      g(v, 0, 5, 10, 15, q[8], q[9]);  g(v, 1, 6, 11, 12, q[10], q[11]);
      g(v, 2, 7, 8, 13, q[12], q[13]); g(v, 3, 4, 9, 14, q[14], q[15]);
    }
    for (int i = 0; i < 8; i++) h[i] ^= v[i] ^ v[i + 8];
  }
  static long rd(byte[] b, int o) {
    long x = 0;
    for (int k = 7; k >= 0; k--) x = x << 8 | (o + k < b.length ? b[o + k] & 255 : 0);
    return x;
  }
  static byte[] hash(byte[] msg, byte[] person, int size) {
    long[] h = IV.clone();
    h[0] ^= 0x01010000L + size;
    h[6] ^= rd(person, 0);
    h[7] ^= rd(person, 8);
    int nb = Math.max(1, (msg.length + 127) / 128);
    long[] m = new long[16];
    for (int b = 0; b < nb; b++) {
      for (int i = 0; i < 16; i++) m[i] = rd(msg, 128 * b + 8 * i);
      compress(h, m, b == nb - 1 ? msg.length : 128L * (b + 1), b == nb - 1);
    }
    byte[] r = new byte[size];
    for (int i = 0; i < size; i++) r[i] = (byte) (h[i / 8] >>> (8 * (i % 8)));
    return r;
  }
  public static Value Blake2b(Value msg, Value person, Value size) {
    return Words.bytes(hash(Words.tobytes(msg), Words.tobytes(person), Words.in(size)));
  }
}
