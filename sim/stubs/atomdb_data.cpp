// Stand-in for the generated atomic database: a small table with the same
// layout. The values are smooth but otherwise arbitrary orbitals.
namespace helfem { namespace atomdb { namespace data {
extern const int max_Z, lmax, Nbf, nelem, nnodes, primbas, nquad, norbital;
extern const double bval[];
extern const int norb[][4];
extern const int offset[][4];
extern const double occupations[];
extern const double coefficients[];
const int max_Z = 4, lmax = 3, nelem = 3, nnodes = 5, primbas = 4, nquad = 15, norbital = 7;
const int Nbf = 11; // 3 elements x 4 - the boundary functions at both ends
const double bval[] = {0.0, 0.8, 2.5, 8.0};
const int norb[][4] = {{1, 0, 0, 0}, {1, 0, 0, 0}, {2, 0, 0, 0}, {2, 1, 0, 0}};
const int offset[][4] = {{0, 1, 1, 1}, {1, 2, 2, 2}, {2, 4, 4, 4}, {4, 6, 7, 7}};
const double occupations[] = {1.0, 2.0, 2.0, 1.0, 2.0, 1.5, 0.5};
const double coefficients[] = {
  .21,.42,.55,.60,.48,.40,.25,.17,.08,.04,.01,
  .31,.52,.60,.58,.43,.30,.19,.10,.05,.02,.01,
  .41,.62,.63,.50,.33,.20,.11,.06,.03,.01,.00,
  -.09,-.11,-.02,.14,.31,.42,.44,.33,.21,.10,.04,
  .46,.66,.61,.44,.27,.15,.08,.04,.02,.01,.00,
  -.12,-.13,.01,.21,.38,.47,.42,.28,.15,.07,.02,
  .05,.14,.25,.38,.45,.43,.34,.22,.12,.05,.02};
}}}
