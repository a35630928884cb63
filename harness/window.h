/* the pixels of a plane: all symbolic (win 0), or a win by win block of symbolic pixels at a position
 * and in surroundings that are chosen symbolically */
#ifndef WINDOW_H
#define WINDOW_H
#include "sym.h"
/* mild: no extreme surroundings, and nothing near the last row and column */
static void window_plane(u8 *p, int win, int mild) {
  static const u8 at[8] = {0, 1, 15, 30, 31, 47, 57, 62}; unsigned s = 12345; int i, k, x0, y0;
  if (!win) { sym_bytes(p, 4096, "pix"); return; }
  k = sym_concrete(sym_int("surroundings", 0, mild ? 1 : 2)); x0 = at[sym_concrete(sym_int("wx", 0, mild ? 6 : 7))]; y0 = at[sym_concrete(sym_int("wy", 0, mild ? 6 : 7))];
  for (i = 0; i < 4096; i++) { s = s * 1103515245u + 12345u; p[i] = (u8)(k == 0 ? 96 + (s >> 17) % 64 : k == 1 ? (i & 63) * 3 + (i >> 6) : ((i ^ i >> 6) & 1 ? 255 : 0)); }
  for (i = 0; i < win && y0 + i < 64; i++) sym_bytes(p + 64 * (y0 + i) + x0, (size_t)(x0 + win <= 64 ? win : 64 - x0), "pix");
}
#endif
