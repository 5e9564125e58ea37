import tlc2.value.impl.*;

/** Java twin of the permutation of spec/Eaglesong.tla. */
public class Eaglesong {
  static final int[][] MATRIX = {
    {1,1,1,1,0,1,0,1,1,1,1,1,0,0,0,1},
    {0,1,1,1,1,0,1,0,1,1,1,1,1,0,0,1},
    {0,0,1,1,1,1,0,1,0,1,1,1,1,1,0,1},
    {0,0,0,1,1,1,1,0,1,0,1,1,1,1,1,1},
    {1,1,1,1,1,0,1,0,1,0,1,0,1,1,1,0},
    {1,0,0,0,1,0,0,0,1,0,1,0,0,1,1,1},
    {1,0,1,1,0,0,0,1,1,0,1,0,0,0,1,0},
    {1,0,1,0,1,1,0,1,0,0,1,0,0,0,0,1},
    {0,1,0,1,0,1,1,0,1,0,0,1,0,0,0,1},
    {0,0,1,0,1,0,1,1,0,1,0,0,1,0,0,1},
    {0,0,0,1,0,1,0,1,1,0,1,0,0,1,0,1},
    {0,0,0,0,1,0,1,0,1,1,0,1,0,0,1,1},
    {1,1,1,1,0,0,0,0,1,0,0,1,1,0,0,0},
    {0,1,1,1,1,0,0,0,0,1,0,0,1,1,0,0},
    {0,0,1,1,1,1,0,0,0,0,1,0,0,1,1,0},
    {1,1,1,0,1,0,1,1,1,1,1,0,0,0,1,1}
  };
  static final int[][] CIRCULANT = {{2, 4}, {13, 22}, {4, 19}, {3, 14}, {27, 31}, {3, 8}, {17, 26}, {3, 12}, {18, 22}, {12, 18}, {4, 7}, {4, 31}, {12, 27}, {7, 17}, {7, 8}, {1, 13}};

  public static Value PermuteWith(Value state, Value inj) {
    Value[] e = Words.el(state), c = Words.el(inj);
    int[] s = new int[16];
    for (int i = 0; i < 16; i++) s[i] = (int) Words.lng(e[i]);
    for (int r = 0; r < c.length / 16; r++) {
      int[] t = new int[16];
      for (int j = 0; j < 16; j++)
        for (int k = 0; k < 16; k++) if (MATRIX[k][j] == 1) t[j] ^= s[k];
      for (int j = 0; j < 16; j++) {
        int v = t[j];
        t[j] = v ^ Integer.rotateLeft(v, CIRCULANT[j][0]) ^ Integer.rotateLeft(v, CIRCULANT[j][1]);
        t[j] ^= (int) Words.lng(c[16 * r + j]);
      }
      for (int j = 0; j < 16; j += 2) {
        s[j] = Integer.rotateLeft(t[j] + t[j + 1], 8);
        s[j + 1] = s[j] + Integer.rotateLeft(t[j + 1], 24);
      }
    }
    Value[] out = new Value[16];
    for (int i = 0; i < 16; i++) out[i] = Words.word(s[i] & 0xffffffffL, 2);
    return new TupleValue(out);
  }
}
