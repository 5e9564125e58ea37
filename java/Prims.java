import tlc2.value.impl.*;

/** Java twins of spec/Prims.tla. */
public class Prims {
  static Value words(long[] v, int n) {
    Value[] r = new Value[v.length];
    for (int i = 0; i < r.length; i++) r[i] = Words.word(v[i], n);
    return new TupleValue(r);
  }
  static long[] longs(Value v) {
    Value[] e = Words.el(v);
    long[] r = new long[e.length];
    for (int i = 0; i < r.length; i++) r[i] = Words.lng(e[i]);
    return r;
  }
  public static Value FnvHash(Value mix, Value data) {
    Value[] m = Words.el(mix), d = Words.el(data), r = new Value[m.length];
    for (int i = 0; i < r.length; i++) r[i] = Words.word((int) Words.lng(m[i]) * 0x01000193 ^ (int) Words.lng(d[i]), 2);
    return new TupleValue(r);
  }
  static void round(long[] v) {
    v[0] += v[1]; v[1] = Long.rotateLeft(v[1], 13) ^ v[0]; v[0] = Long.rotateLeft(v[0], 32);
    v[2] += v[3]; v[3] = Long.rotateLeft(v[3], 16) ^ v[2];
    v[0] += v[3]; v[3] = Long.rotateLeft(v[3], 21) ^ v[0];
    v[2] += v[1]; v[1] = Long.rotateLeft(v[1], 17) ^ v[2]; v[2] = Long.rotateLeft(v[2], 32);
  }
  static void sip(long[] v, long nonce, int c, int d) {
    v[3] ^= nonce;
    for (int i = 0; i < c; i++) round(v);
    v[0] ^= nonce;
    v[2] ^= 255;
    for (int i = 0; i < d; i++) round(v);
  }
  public static Value SipRound(Value s) { long[] v = longs(s); round(v); return words(v, 4); }
  public static Value SipHashState(Value s, Value nonce, Value c, Value d) {
    long[] v = longs(s);
    sip(v, Words.lng(nonce), Words.in(c), Words.in(d));
    return words(v, 4);
  }
  public static Value SipBlock48(Value keys, Value edge) {
    long[] v = longs(keys), b = new long[64];
    long e = Words.lng(edge);
    for (int i = 0; i < 64; i++) {
      sip(v, (e & ~63L) + i, 4, 8);
      b[i] = v[0] ^ v[1] ^ v[2] ^ v[3];
    }
    int k = (int) (e & 63);
    return Words.word(k == 63 ? b[63] : b[k] ^ b[63], 4);
  }
  public static Value XoNext(Value st) {
    long[] s = longs(st);
    long r = Long.rotateLeft(s[0] + s[3], 23) + s[0], t = s[1] << 17;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t;
    s[3] = Long.rotateLeft(s[3], 45);
    return new TupleValue(new Value[] {Words.word(r, 4), words(s, 4)});
  }
  public static Value KissNext(Value st) {
    long[] k = longs(st);
    int z = 36969 * ((int) k[0] & 0xffff) + ((int) k[0] >>> 16);
    int w = 18000 * ((int) k[1] & 0xffff) + ((int) k[1] >>> 16);
    int c = 69069 * (int) k[3] + 1234567, j = (int) k[2];
    j ^= j << 17; j ^= j >>> 13; j ^= j << 5;
    int out = (((z << 16) + w) ^ c) + j;
    return new TupleValue(new Value[] {Words.word(out, 2), words(new long[] {z, w, j, c}, 2)});
  }
}
