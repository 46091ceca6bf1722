PRE = '#include <cstdio>\n#define CK(c) if (!(c)) { printf("broken: %s\\n", #c); return 1; }\n'
SEEDS = [
 dict(id="S01", property="C01", edits=[("src/utility/momentum.cpp", "        k += (2 * MAX_K + 1);", "        k += 2 * MAX_K;")],
  needs="a sum or difference that leaves the range at its lower edge", breaks="such a result is folded back one unit short, so momentum conservation is lost",
  sources=["utility/momentum.cpp"], demo=PRE + '''#include "utility/momentum.h"
int main() { Momentum a(9000), b(1000); a += b; CK(a.K == 10000) CK(a.index() == 20000) Momentum c(-9000); c -= Momentum(1000); CK(c.K == -10000) CK((Momentum(-10000) - 1).K == 10000) return 0; }
'''),
 dict(id="S02", property="C02", edits=[("src/utility/complex.cpp", "    Im = re * c.Im + Im * cre;", "    Im = re * c.Im + Im * c.Re;"), ("src/utility/complex.cpp", "    real cre = c.Re; // backup c.Re too, in case c *= c;\n", "")],
  needs="a product assigned to one of its own operands", breaks="z *= z uses the overwritten real part",
  sources=["utility/complex.cpp"], demo=PRE + '''#include "utility/complex.h"
int main() { Complex a(1, 2), b(3, -1), c = a; a *= b; CK(a.Re == 5 && a.Im == 5) c *= c; CK(c.Re == -3 && c.Im == 4) return 0; }
'''),
 dict(id="S03", property="C03", edits=[("src/module/diagram/component_bundle.cpp", "    _component_name[name] = last;\n    _component_name[_available_space] = target;\n    return;\n}\n\ntemplate <typename T>\nvoid Bundle<T>::Remove(T *target)", "    _component_name[name] = last;\n    return;\n}\n\ntemplate <typename T>\nvoid Bundle<T>::Remove(T *target)")],
  needs="removing by number an object that is not the last one, then adding again", breaks="the removed object is lost and the next addition hands out an object that is still live",
  sources=["module/diagram/component_bundle.cpp", "utility/rng.cpp", "utility/momentum.cpp", "utility/complex.cpp", "utility/logger.cpp"], demo=PRE + '''#include "module/diagram/component_bundle.h"
using namespace diag;
int main() { Bundle<Vertex> b("v"); Vertex* v[5]; for (int i = 0; i < 5; i++) v[i] = b.Add(); b.Remove(1); for (int i = 0; i < 5; i++) CK(b.Exist(v[i]) == (i != 1))
  Vertex* w = b.Add(); CK(w == v[1]) for (int i = 0; i < 5; i++) CK(b[v[i]->Name].Name == v[i]->Name && &b[v[i]->Name] == v[i]) return 0; }
'''),
 dict(id="S04", property="C11", edits=[("src/lattice/lattice.cpp", "        Index = Index * Size[i] + vec[i];", "        Index = Index * Size[D - 1 - i] + vec[i];")],
  needs="a lattice that is not square", breaks="distinct vectors share an index on rectangular lattices",
  sources=["lattice/lattice.cpp", "utility/logger.cpp"], demo=PRE + '''#include "lattice/lattice.h"
int main() { int sz[3][2] = {{4, 4}, {3, 7}, {8, 2}}; for (auto& s : sz) { Vec<int> L(0); L[0] = s[0]; L[1] = s[1]; Lattice l(L, 1); for (int i = 0; i < s[0] * s[1]; i++) CK(l.Vec2Index(l.Index2Vec(i)) == i) } return 0; }
'''),
 dict(id="S05", property="C12", edits=[("src/module/weight/index_map.cpp", "(t_out > t_in) ? 1 : _TauSymmetryFactor", "(t_out >= t_in) ? 1 : _TauSymmetryFactor")],
  needs="an equal-time evaluation of an antiperiodic table", breaks="equal times carry plus one instead of the symmetry sign",
  sources=["module/weight/index_map.cpp", "lattice/lattice.cpp", "utility/logger.cpp"], demo=PRE + '''#include "module/weight/index_map.h"
using namespace weight;
int main() { Vec<int> L(4); Lattice l(L, 2); IndexMapSPIN2 m(2.0, 8, l, TauAntiSymmetric); CK(m.GetTauSymmetryFactor(0.5, 0.7) == 1) CK(m.GetTauSymmetryFactor(0.7, 0.5) == -1) CK(m.GetTauSymmetryFactor(0.5, 0.5) == -1) return 0; }
'''),
 dict(id="S06", property="C12", edits=[("src/module/weight/index_map.cpp", "tau < 0 ? floor(tau * _dBetaInverse) + MaxTauBin", "tau < 0 ? int(tau * _dBetaInverse) - 1 + MaxTauBin")],
  needs="a negative time difference that is an exact multiple of the bin width", breaks="the bin boundary belongs to the bin below, bin -1 is not avoided and the first bin edge is off by one",
  sources=["module/weight/index_map.cpp", "lattice/lattice.cpp", "utility/logger.cpp"], demo=PRE + '''#include "module/weight/index_map.h"
using namespace weight;
int main() { Vec<int> L(4); Lattice l(L, 2); IndexMapSPIN2 m(2.0, 8, l, TauAntiSymmetric); CK(m.TauIndex(0.3) == 1) CK(m.TauIndex(-0.3) == 6) CK(m.TauIndex(-0.5) == 6) CK(m.TauIndex(1.0, 0.25) == 5) return 0; }
'''),
 dict(id="S07", property="C16", edits=[("src/module/markov/markov.cpp", "RNG->irn(-MAX_K, MAX_K)", "RNG->irn(-MAX_K, MAX_K - 1)")],
  needs="the last momentum of the range, or a comparison of the shares of the outputs", breaks="one momentum is never proposed and the shares of the others change",
  sources="all", demo=PRE + '''#include "utility/rng.h"
#include "utility/momentum.h"
#include "module/markov/markov.h"
int main() { RandomFactory f(1); mc::Markov m; m.RNG = &f; bool lo = false, hi = false; for (int i = 0; i < 2000000; i++) { int k = m.RandomPickK().K; CK(k >= -10000 && k <= 10000) lo |= k == -10000; hi |= k == 10000; } CK(lo) CK(hi) return 0; }
'''),
 dict(id="S08", property="C11", edits=[("src/lattice/lattice.cpp", "        if (vec[i] < 0)\n            vec[i] += Size[i];\n        if (vec[i] >= Size[i])", "        if (vec[i] < -1)\n            vec[i] += Size[i];\n        if (vec[i] >= Size[i])")],
  needs="two sites one step apart across the origin of an axis", breaks="a displacement of minus one gives a negative index",
  sources=["lattice/lattice.cpp", "utility/logger.cpp"], demo=PRE + '''#include "lattice/lattice.h"
int main() { Vec<int> L(4); Lattice l(L, 1); Vec<int> o(0); for (int i = 0; i < 16; i++) for (int j = 0; j < 16; j++) { Site a(0, l.Index2Vec(i)), b(0, l.Index2Vec(j)); int k = l.CoordiIndex(a, b); CK(k >= 0 && k < 16) CK((k == 0) == (i == j)) } return 0; }
'''),
]
