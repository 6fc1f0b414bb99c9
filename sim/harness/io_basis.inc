// ------------------------------------------------------------ P14: basis sets
typedef helfem::atomic::basis::TwoDBasis ABasis;
typedef helfem::diatomic::basis::TwoDBasis DBasis;
static ABasis mk_atomic(Ctx &c, const std::string &s, bool small) {
  int Z = (int)c.knob("Z" + s, 1, 12), fam = (int[]){4, 4, 3, 5, 4, 5}[c.knob("family" + s, 0, 5)];
  int nn = (int)c.knob("nnodes" + s, fam == 5 ? 2 : 2, fam == 5 ? 4 : (small ? 3 : 7)), nel = (int)c.knob("nel" + s, 1, small ? 2 : 5); if (nel == 1 && fam != 5) nn = std::max(nn, 4); // something must survive the boundary conditions
  int lmax = (int)c.knob("lmax" + s, 0, small ? 1 : 3), mmax = (int)c.knob("mmax" + s, 0, lmax);
  int nq = 5 * nn + (int)c.knob("xquad" + s, 0, 6), ig = (int)c.knob("igrid" + s, 1, 4); double rmax = 5 + 0.37 * (double)c.knob("rmax" + s, 0, 60);
  bool zd = c.flag("zeroder" + s, 35);
  static const modelpotential::nuclear_model_t M[] = {modelpotential::POINT_NUCLEUS, modelpotential::GAUSSIAN_NUCLEUS, modelpotential::SPHERICAL_NUCLEUS, modelpotential::HOLLOW_NUCLEUS};
  int mi = (int)c.knob("model" + s, 0, 6); auto m = M[mi > 3 ? 0 : mi]; double rrms = m == modelpotential::POINT_NUCLEUS ? 0 : 1e-3 * (1 + c.knob("rrms" + s, 0, 40));
  int Zl = 0, Zr = 0; double Rh = 0;
  if (mi > 4) { Zl = (int)c.knob("Zl" + s, 0, 3); Zr = (int)c.knob("Zr" + s, 0, 3); Rh = 0.3 + 0.1 * (double)c.knob("Rhalf" + s, 0, 20); }
  Eigen::VectorXi lv, mv; helfem::atomic::basis::angular_basis(lmax, mmax, lv, mv);
  if (c.flag("sym" + s, 15)) { lv = Eigen::VectorXi::Constant(1, lmax); mv = Eigen::VectorXi::Constant(1, mmax); }
  Vector b = Rh > 0 || m != modelpotential::POINT_NUCLEUS ? helfem::atomic::basis::form_grid(m, rrms, nel, rmax, ig, 2.0, 1, 4, 2.0, Z, Zl, Zr, Rh) : helfem::atomic::basis::normal_grid(nel, rmax, ig, 2.0);
  return ABasis(Z, m, rrms, poly(fam, nn), zd, nq, b, lv, mv, Zl, Zr, Rh);
}
static DBasis mk_diatomic(Ctx &c, const std::string &s, bool small) {
  int Z1 = (int)c.knob("Z1" + s, 0, 8), Z2 = (int)c.knob("Z2" + s, 1, 8), fam = (int[]){4, 3, 5, 4}[c.knob("family" + s, 0, 3)];
  int nn = (int)c.knob("nnodes" + s, 2, fam == 5 ? 3 : 5), nel = (int)c.knob("nel" + s, 1, small ? 2 : 4), mmax = (int)c.knob("mmax" + s, 0, 2); if (nel == 1 && fam != 5) nn = std::max(nn, 4);
  Eigen::VectorXi lm(mmax + 1); for (int i = 0; i <= mmax; i++) lm(i) = i + (int)c.knob("l" + std::to_string(i) + s, 0, 2);
  Eigen::VectorXi lv, mv; helfem::diatomic::basis::lm_to_l_m(lm, lv, mv);
  Vector b = helfem::atomic::basis::normal_grid(nel, 2.0 + 0.31 * (double)c.knob("mumax" + s, 0, 9), (int)c.knob("igrid" + s, 1, 2), 1.0);
  return DBasis(Z1, Z2, 0.5 + 0.07 * (double)c.knob("R" + s, 0, 30), poly(fam, nn), 10 + (int)c.knob("nq" + s, 0, 30), b, lv, mv, true);
}
struct Desc { std::vector<double> num; std::vector<Matrix> m; bool operator==(const Desc &) const = default; };
static void addv(Desc &d, const Eigen::VectorXi &v) { d.num.push_back((double)v.size()); for (long i = 0; i < v.size(); i++) d.num.push_back(v(i)); }
static void addv(Desc &d, const Vector &v) { d.num.push_back((double)v.size()); for (long i = 0; i < v.size(); i++) d.num.push_back(v(i)); }
static Desc describe(const ABasis &b) {
  Desc d; d.num = {(double)b.get_Z(), (double)b.get_Zl(), (double)b.get_Zr(), b.get_Rhalf(), (double)b.get_nuclear_model(), b.get_nuclear_size(), (double)b.get_nquad(), (double)b.get_poly_id(), (double)b.get_poly_nnodes(), (double)b.get_zeroder(), (double)b.Nbf(), (double)b.Nrad(), (double)b.Nang()};
  addv(d, b.get_lval()); addv(d, b.get_mval()); addv(d, b.get_bval());
  d.m = {b.overlap(), b.kinetic(), b.nuclear()}; return d;
}
static Desc describe(const DBasis &b) {
  Desc d; d.num = {(double)b.get_Z1(), (double)b.get_Z2(), b.get_Rhalf(), (double)b.get_nquad(), (double)b.get_poly_id(), (double)b.get_poly_nnodes(), (double)b.Nbf(), (double)b.Nrad(), (double)b.Nang()};
  addv(d, b.get_lval()); addv(d, b.get_mval()); addv(d, b.get_bval());
  d.m = {b.overlap(), b.kinetic(), b.nuclear()}; return d;
}
// empty if the same basis
static std::string differ(const Desc &a, const Desc &b) {
  if (a.num.size() != b.num.size()) return "different number of parameters";
  for (size_t i = 0; i < a.num.size(); i++) if (memcmp(&a.num[i], &b.num[i], 8) && a.num[i] != b.num[i]) return "parameter " + std::to_string(i) + " is " + str(a.num[i]) + " instead of " + str(b.num[i]);
  static const char *n[] = {"overlap", "kinetic", "nuclear attraction"};
  for (size_t i = 0; i < a.m.size(); i++) {
    if (a.m[i].rows() != b.m[i].rows() || a.m[i].cols() != b.m[i].cols()) return std::string(n[i]) + " matrix has another shape";
    double s = b.m[i].size() ? b.m[i].cwiseAbs().maxCoeff() : 0;
    for (long k = 0; k < a.m[i].size(); k++) { double x = a.m[i].data()[k], y = b.m[i].data()[k]; if (!(std::abs(x - y) <= 1e-11 * s) && !(x != x && y != y)) return std::string(n[i]) + " matrix differs: " + str(x) + " instead of " + str(y); }
  }
  return "";
}
template <typename BAS> static void basis_history(Ctx &c, BAS (*make)(Ctx &, const std::string &, bool), const std::vector<std::string> &keys, const char *label) {
  BAS b1 = make(c, "", false), b0 = make(c, "'", true);
  Desc d1 = describe(b1), d0 = describe(b0); mix(d1.num.data(), 8 * d1.num.size());
  int mode = (int)c.knob("mode", 0, 5); // 0,1 healthy; 2 failing save; 3 failing restore; 4 damaged; 5 truncated
  IoPlan p; double q = (double[]){0.0005, 0.003, 0.02}[c.knob("rate", 0, 2)]; if (c.flag("alloc", 12)) p.p_alloc = 0.4;
  if (mode == 2) { if (c.flag("full", 30)) p.capacity = 1000 + 100 * c.knob("capacity", 0, 120); else { for (int i = 0; i < SC_N; i++) p.p[i] = q; } }
  if (mode == 3) { for (int i : {SC_OPEN, SC_READ, SC_STAT, SC_CLOSE, SC_LOCK}) p.p[i] = q * 3; }
  if (mode >= 2 && mode <= 3) { p.sticky = (int)c.knob("sticky", 0, 60); p.p_soft = c.flag("soft", 50) ? 0.1 : 0; } else if (c.flag("soft", 30)) p.p_soft = 0.1;
  io_start(c, p);
  bool wopen = c.flag("write_open", 50), ropen = c.flag("read_open", 50), other = c.flag("other_entries", 40);
  std::unique_ptr<Checkpoint> k;
  Out o = run(1, false, [&] { k = std::make_unique<Checkpoint>("b.chk", true); if (other) { k->write("Ca", Matrix(Matrix::Random(3, 3))); k->write("E", 1.5); } if (c.flag("twice", 30)) k->write(b0); if (wopen) k->open(); });
  if (!o.ok) bad("create failed", std::string(label) + ": " + o.err);
  o = run(2, true, [&] { k->write(b1); });
  if (k->is_open() != wopen) bad("open state changed by basis save", std::string(label) + ": saving a basis left the file " + (wopen ? "closed" : "open"));
  bool saved = o.ok;
  if (!o.ok && !o.hard) bad("basis save failed without a fault", std::string(label) + ": " + o.err);
  if (wopen) { Out q = run(3, true, [&] { k->close(); }); if (!q.ok) saved = false; if (!q.ok && !q.hard && o.ok) bad("close failed without a fault", q.err); }
  run(4, false, [&] { k.reset(); });
  if (!saved) { probe("save reported a fault"); return; }
  if (o.hard) probe("fault absorbed by save");
  bool refuse = false; std::string key;
  if (mode == 4) {
    Rng r = c.rng("damage"); key = keys[r.below(keys.size())]; int how = (int)c.knob("damage", 0, 2);
    Out q = run(5, false, [&] { Checkpoint d("b.chk", true, false); d.remove(key);
      if (how == 1) d.write(key, std::string("damaged"));
      if (how == 2) d.write(key, std::vector<double>{1, 2, 3}); });
    if (!q.ok) bad("could not damage the file", q.err);
    refuse = true;
  }
  if (mode == 5) { std::string all = slurp("b.chk"); Rng r = c.rng("cut"); size_t n = r.below(all.size()); spew("b.chk", all.substr(0, n)); }
  BAS t = b0;
  o = run(6, mode == 3, [&] { k = std::make_unique<Checkpoint>("b.chk", c.flag("rw", 30), false); if (!ropen && k->is_open()) k->close(); });
  if (!o.ok) { if (!o.hard && mode != 5) bad("reopen failed", std::string(label) + ": " + o.err); probe(mode == 5 ? "truncated file refused" : "open reported a fault"); return; }
  o = run(7, mode == 3, [&] { k->read(t); });
  if (k->is_open() != ropen) bad("open state changed by basis restore", std::string(label) + ": " + (o.ok ? "restoring" : "a failed restore of") + " a basis left the file " + (ropen ? "closed" : "open"));
  Desc dt; try { dt = describe(t); } catch (const std::exception &e) { bad("restored basis unusable", std::string(label) + ": " + e.what()); }
  if (o.ok) {
    if (refuse) bad("damaged basis restored", std::string(label) + ": entry \"" + key + "\" was " + (c.knob("damage", 0, 2) == 0 ? "missing" : "of another kind") + " but the restore succeeded");
    std::string w = differ(dt, d1); if (!w.empty()) bad("restored basis differs", std::string(label) + ": " + w);
    if (o.hard) probe("fault absorbed by restore"); probe("basis restored");
    // and it is usable for a second save
    if (mode <= 1 && c.flag("again", 50)) {
      BAS t2 = b0; Out q = run(8, false, [&] { { Checkpoint x("b2.chk", true); x.write(t); } Checkpoint y("b2.chk", false); y.read(t2); });
      if (!q.ok) bad("second save or restore failed", q.err);
      w = differ(describe(t2), d1); if (!w.empty()) bad("restored basis differs", std::string(label) + " second generation: " + w);
    }
  } else {
    if (!o.hard && !refuse && mode != 5) bad("basis restore failed without a fault", std::string(label) + ": " + o.err);
    std::string w = differ(dt, d0); if (!w.empty() && !differ(dt, d1).empty()) bad("failed restore altered the basis", std::string(label) + ": " + w);
    probe("restore refused");
    if (mode == 3) { // the fault has gone away
      io_heal(); BAS t3 = b0; Out q = run(9, false, [&] { k->read(t3); });
      if (!q.ok) bad("restore failed after the fault was gone", std::string(label) + ": " + q.err);
      w = differ(describe(t3), d1); if (!w.empty()) bad("restored basis differs", std::string(label) + " after a fault: " + w);
    }
  }
  run(10, false, [&] { k.reset(); });
  if (io_open_fds()) bad("descriptor leak at the end", label);
}
static void s_atomic_basis(Ctx &c) { basis_history<ABasis>(c, mk_atomic, {"HelFEM_ID", "Z", "Zl", "Zr", "Rhalf", "bval", "finitenuc", "Rrms", "n_quad", "poly_id", "poly_nnodes", "zeroder", "lval", "mval"}, "atomic basis"); }
static void s_diatomic_basis(Ctx &c) { basis_history<DBasis>(c, mk_diatomic, {"HelFEM_ID", "Z1", "Z2", "Rhalf", "bval", "n_quad", "poly_id", "poly_nnodes", "lval", "mval"}, "diatomic basis"); }

// ------------------------------------------------------------ P15: text files
static IoPlan textplan(Ctx &c, int mode, bool rd) {
  IoPlan p; double q = (double[]){0.02, 0.1, 0.4}[c.knob("rate", 0, 2)]; if (c.flag("alloc", 12)) p.p_alloc = 0.4;
  if (mode == 1) { if (rd) { p.p[SC_READ] = q; p.p[SC_OPEN] = q / 3; } else { p.p[SC_WRITE] = q; p.p[SC_OPEN] = q / 4; p.p[SC_CLOSE] = q / 4; p.p[SC_NAME] = q; } p.p_soft = 0.1; }
  if (mode == 2) p.p_soft = 0.5;
  if (mode == 3 && !rd) p.capacity = c.knob("capacity", 0, 400) * 37;
  p.sticky = (int)c.knob("sticky", 0, 60);
  return p;
}
template <typename T> static T parse_t(const char *s, char **e);
template <> double parse_t<double>(const char *s, char **e) { return strtod(s, e); }
template <> long double parse_t<long double>(const char *s, char **e) { return strtold(s, e); }
template <typename T> static void dump_t(Ctx &c, bool vec) {
  Rng r = c.rng("data"); int mode = (int)c.knob("mode", 0, 3);
  long nr = c.knob("rows", 0, c.flag("bigdump", 25) ? 400 : 12), nc = vec ? 1 : c.knob("cols", 0, 9); int p = std::is_same<T, double>::value ? 0 : 1;
  Mat<T> m(nr, nc); for (long k = 0; k < m.size(); k++) m.data()[k] = (T)rnd(r, p);
  io_start(c, textplan(c, mode, false));
  if (c.flag("existing", 40)) spew("m.dat", std::string(5000, 'x')); // a longer file of the same name
  int n = (int)c.knob("nops", 1, 3);
  for (int i = 0; i < n; i++) {
    if (!io_wants(i + 1)) continue;
    Out o = run(i + 1, true, [&] { if (vec) helfem::io::write_raw_ascii<T>("m.dat", Vec<T>(m.col(0))); else helfem::io::write_raw_ascii<T>("m.dat", m); });
    if (!o.ok) { if (!o.hard) bad("dump failed without a fault", o.err); probe("dump reported a fault"); continue; }
    std::string s = slurp("m.dat"), why; if (!there("m.dat")) bad("dump lost", "the dump returned but the file does not exist");
    std::vector<std::string> lines; { std::istringstream is(s); std::string l; while (std::getline(is, l)) lines.push_back(l); }
    if (!s.empty() && s.back() != '\n') why = "the last line is incomplete";
    else if ((long)lines.size() != nr) why = std::to_string(lines.size()) + " lines for " + std::to_string(nr) + " rows";
    for (long a = 0; a < nr && why.empty(); a++) {
      const char *q = lines[a].c_str(); char *e;
      for (long b = 0; b < nc && why.empty(); b++) {
        T x = parse_t<T>(q, &e); if (e == q) { why = "row " + std::to_string(a) + " is short"; break; } q = e;
        if (rawof(x) != rawof(m(a, b))) why = "entry " + std::to_string(a) + "," + std::to_string(b) + " reads back as " + str((double)x) + " instead of " + str((double)m(a, b));
      }
      while (*q == ' ') q++; if (why.empty() && *q) why = "row " + std::to_string(a) + " has extra text";
    }
    mix(s.data(), s.size());
    if (!why.empty()) bad(o.hard ? "dump acknowledged although a write failed" : "dump does not round-trip", "dump of a " + std::to_string(nr) + "x" + std::to_string(nc) + " matrix: " + why);
    probe(o.hard ? "fault absorbed by dump" : "dump verified");
  }
}
static void s_dump(Ctx &c) { bool v = c.flag("vector", 30); if (c.flag("longdouble", 40)) dump_t<long double>(c, v); else dump_t<double>(c, v); }
static void s_table(Ctx &c) {
  Rng r = c.rng("table"); int mode = (int)c.knob("mode", 0, 3);
  long nr = c.knob("rows", 0, c.flag("bigtable", 25) ? 900 : 8), nc = c.knob("cols", 1, 12);
  int bad_kind = mode == 3 ? (int)c.knob("malformed", 1, 6) : 0; if (nr == 0) bad_kind = 0;
  long br = nr ? (long)r.below(nr) : 0, bc = (long)r.below(nc);
  std::vector<std::vector<int>> t(nr, std::vector<int>(nc)); std::string s;
  static const char *sp[] = {" ", "  ", "\t", " \t "};
  for (long i = 0; i < nr; i++) {
    while (r.below(8) == 0) s += r.below(2) ? "\n" : "   \n";
    if (r.below(3) == 0) s += sp[r.below(4)];
    for (long j = 0; j < nc; j++) {
      int v = r.below(4) ? (int)r.below(9) - 2 : (int)(uint32_t)r.next(); if (r.below(30) == 0) v = r.below(2) ? 2147483647 : (-2147483647 - 1);
      t[i][j] = v; std::string tok = std::to_string(v); if (v >= 0 && r.below(10) == 0) tok = "+" + tok; if (v >= 0 && r.below(12) == 0) tok = "0" + std::to_string(v);
      if (bad_kind && i == br && j == bc) {
        if (bad_kind == 1) tok = "x"; if (bad_kind == 2) tok = "1.5"; if (bad_kind == 3) tok = "99999999999"; if (bad_kind == 4) tok += "a"; if (bad_kind == 5) { tok = ""; } if (bad_kind == 6) tok += " " + std::to_string((int)r.below(9));
      }
      if (j) s += sp[r.below(4)]; s += tok;
    }
    if (r.below(3) == 0) s += sp[r.below(4)];
    if (i + 1 < nr || r.below(3)) s += "\n";
  }
  // dropping or adding an entry is only an error when another row has the old length
  if ((bad_kind == 5 || bad_kind == 6) && nr < 2) bad_kind = 0, mode = 4;
  if (bad_kind == 5 && nc == 1) mode = 4, bad_kind = 0; // leaves a blank line
  if (mode == 4) return;
  bool missing = c.flag("missing", 5);
  if (!missing) spew("occs.dat", s);
  io_start(c, textplan(c, mode, true));
  int n = (int)c.knob("nops", 1, 3);
  for (int q = 0; q < n; q++) {
    if (!io_wants(q + 1)) continue;
    Eigen::MatrixXi m; Out o = run(q + 1, true, [&] { m = helfem::io::read_raw_ascii_imat("occs.dat"); });
    if (!o.ok) { if (!o.hard && !bad_kind && !missing) bad("table refused without a reason", o.err); probe(bad_kind ? "malformed table refused" : missing ? "missing table refused" : "table read reported a fault"); continue; }
    if (missing) bad("missing table read", "a table file that does not exist was read");
    static const char *bk[] = {"", "a word instead of a number", "a fractional number", "a number out of range", "a number with trailing text", "a missing entry", "an extra entry"};
    if (bad_kind) bad("malformed table accepted", std::string("a table with ") + bk[bad_kind] + " in row " + std::to_string(br) + " was read as " + std::to_string(m.rows()) + "x" + std::to_string(m.cols()));
    if (m.rows() != nr || (nr && m.cols() != nc)) bad("table read incompletely", std::to_string(m.rows()) + "x" + std::to_string(m.cols()) + " instead of " + std::to_string(nr) + "x" + std::to_string(nc));
    for (long i = 0; i < nr; i++) for (long j = 0; j < nc; j++) if (m(i, j) != t[i][j]) bad("table entry altered", "entry " + std::to_string(i) + "," + std::to_string(j));
    probe("table verified");
  }
}
static void s_params(Ctx &c) {
  Rng r = c.rng("params"); int mode = (int)c.knob("mode", 0, 3); bool file = c.flag("file", 70);
  long n = c.knob("count", 0, c.flag("many", 25) ? 1500 : 7); std::string s; std::vector<double> v;
  int bad_kind = mode == 3 && n ? (int)c.knob("malformed", 1, 4) : 0; long bi = n ? (long)r.below(n) : 0;
  for (long i = 0; i < n; i++) {
    double x = (double)rnd(r, 0); char b[64]; snprintf(b, sizeof b, r.below(4) ? "%.17g" : "%.4f", x); x = strtod(b, nullptr); v.push_back(x); std::string tok = b;
    if (bad_kind && i == bi) { if (bad_kind == 1) tok = "omega"; if (bad_kind == 2) tok = "0.5,0.3"; if (bad_kind == 3) tok = "1e"; if (bad_kind == 4) tok = "--2"; }
    s += (i ? (file && r.below(4) == 0 ? "\n" : r.below(5) ? " " : "\t") : ""); s += tok;
  }
  if (file && r.below(2)) s += "\n";
  std::string arg = s; if (file) { arg = "pars.txt"; spew(arg, s); }
  io_start(c, textplan(c, mode, true));
  int m = (int)c.knob("nops", 1, 3);
  for (int q = 0; q < m; q++) {
    if (!io_wants(q + 1)) continue;
    Vector g; Out o = run(q + 1, true, [&] { g = helfem::scf::parse_xc_params(arg); });
    if (!o.ok) { if (!o.hard && !bad_kind) bad("parameter list refused without a reason", o.err); probe(bad_kind ? "malformed list refused" : "list read reported a fault"); continue; }
    static const char *bk[] = {"", "a word", "a comma", "an incomplete number", "a doubled sign"};
    if (bad_kind) bad("malformed parameter list accepted", std::string(file ? "file" : "argument") + " with " + bk[bad_kind] + " at position " + std::to_string(bi) + " of " + std::to_string(n) + " was read as " + std::to_string(g.size()) + " numbers");
    if (g.size() != n) bad("parameter list read incompletely", std::to_string(g.size()) + " of " + std::to_string(n) + " numbers");
    for (long i = 0; i < n; i++) if (memcmp(&g.data()[i], &v[i], 8)) bad("parameter altered", "number " + std::to_string(i) + " is " + str(g(i)) + " instead of " + str(v[i]));
    probe("parameters verified");
  }
}

// ------------------------------------------------------------ P16: timer
static double parse_dur(const std::string &s, bool &ok) {
  std::istringstream is(s); double x, t = 0; std::string u; ok = false; int last = 9;
  while (is >> x >> u) { int rank = u == "d" ? 4 : u == "h" ? 3 : u == "min" ? 2 : u == "s" ? 1 : 0; if (!rank || rank >= last || x < 0) return -1; last = rank; t += x * (rank == 4 ? 86400 : rank == 3 ? 3600 : rank == 2 ? 60 : 1); ok = rank == 1; }
  return t;
}
static void s_timer(Ctx &c) {
  io_start(c, IoPlan()); Rng r0 = c.rng("clock");
  g_clock.tick_ns = 1 + (int64_t)r0.below(2000);
  if (c.flag("nearwrap", 20)) g_clock.mono_ns = 999999999 - (int64_t)r0.below(1000) + (int64_t)r0.below(5) * 1000000000;
  int nops = (int)c.knob("nops", 3, 40);
  std::unique_ptr<Timer> t; double ran = 0; int64_t since = 0; bool running = false; double last = -1; uint64_t slackreads = 0;
  auto enter = [&](int i) { io_enter(i, false); };
  auto check = [&](double got, int64_t now0, int64_t now1, const char *what, double res) {
    double lo = ran + (running ? (now0 - since) * 1e-9 : 0), hi = ran + (running ? (now1 - since) * 1e-9 : 0), tol = 1e-6 + 3e-9 * (double)g_clock.tick_ns * (double)(slackreads + 2) + res + 1e-12 * hi;
    if (!(got >= lo - tol && got <= hi + tol)) bad("elapsed time wrong", std::string(what) + " gave " + str(got) + " s after running " + str(lo) + " s");
  };
  for (int i = 0; i < nops; i++) {
    Rng r = c.rng("op" + std::to_string(i)); if (!io_wants(i + 1)) continue;
    // time passes, and the wall clock may be stepped
    static const int64_t dur[] = {0, 1000, 1000000, 999999999, 1000000000, 59990000000, 60000000000, 3599995000000, 3600000000000, 86399996000000, 86400000000000, 250000000000000};
    int64_t d = r.below(2) ? dur[r.below(12)] : (int64_t)r.below(100000000000ull); g_clock.mono_ns += d; g_clock.real_ns += d; if (g_sh) g_sh->sim_ns += d;
    if (r.below(3) == 0) { int64_t s = (int64_t)(r.below(4) == 0 ? r.below(200000000000000ull) : r.below(4000000000ull)); if (r.below(2)) s = -s; g_clock.real_ns += s; fault_fired(s < 0 ? "clock_stepped_back" : "clock_stepped_forward"); uint64_t z = (uint64_t)s; mix(&z, 8); }
    int64_t n0 = g_clock.mono_ns; int what = (int)r.below(100); enter(i + 1);
    if (!t || what < 6) { t = std::make_unique<Timer>(); ran = 0; since = n0; running = true; last = -1; slackreads = 0; }
    else if (what < 14) { t->set(); ran = 0; since = n0; running = true; last = -1; slackreads = 0; }
    else if (what < 34 && running) { t->stop(); ran += (n0 - since) * 1e-9; running = false; slackreads++; probe("stopped"); }
    else if (!running) { t->cont(); since = n0; running = true; slackreads++; probe("continued"); }
    else if (what < 70) {
      double g = t->get(); io_leave(); check(g, n0, g_clock.mono_ns, "get()", 0); mix(&g, 8);
      if (g < 0) bad("elapsed time negative", "get() gave " + str(g));
      if (g < last - 1e-9 * std::max(1.0, last)) bad("elapsed time decreased", "get() gave " + str(g) + " after " + str(last)); last = g; probe("elapsed verified");
    } else if (what < 92) {
      std::string s = t->elapsed(); io_leave(); bool ok; double g = parse_dur(s, ok); if (!ok) bad("duration malformed", "elapsed() gave \"" + s + "\"");
      check(g, n0, g_clock.mono_ns, ("elapsed() \"" + s + "\"").c_str(), 0.0051); probe("duration verified");
      if (running && ran + (n0 - since) * 1e-9 > 86400) probe("more than a day");
    } else {
      std::string s = t->current_time(); io_leave(); time_t w = (time_t)(g_clock.real_ns / 1000000000); char b0[64], b1[64]; struct tm tm; time_t w0 = w - 1;
      gmtime_r(&w, &tm); strftime(b1, sizeof b1, "%a %d %b %Y %H:%M:%S", &tm); gmtime_r(&w0, &tm); strftime(b0, sizeof b0, "%a %d %b %Y %H:%M:%S", &tm);
      if (s != b1 && s != b0) bad("current time wrong", "current_time() gave \"" + s + "\" at " + b1);
    }
    io_leave();
  }
}

// ------------------------------------------------------------ P17: restart files of the atomic SCF
static void s_restart(Ctx &c) {
  sadatom::scf::AtomicSCFOptions o;
  o.Z = (int)c.knob("Z", 1, 10); o.lmax = (int)c.knob("lmax", 0, 2);
  int fam = c.flag("hip", 20) ? 5 : 4, nn = (int)c.knob("nnodes", 3, fam == 5 ? 3 : 6), nel = (int)c.knob("nel", 1, 4);
  o.poly = poly(fam, nn); o.Nquad = 5 * nn + (int)c.knob("xquad", 0, 3); o.bval = helfem::atomic::basis::normal_grid(nel, 10.0 + 0.3 * (double)c.knob("rmax", 0, 20), 4, 2.0);
  o.restricted = c.flag("restricted", 50); o.zeroder = c.flag("zeroder", 15);
  static const int F[][2] = {{0, 0}, {1, 7}, {101, 130}, {0, 0}}; int fi = (int)c.knob("functional", 0, 3); o.x_func = F[fi][0]; o.c_func = F[fi][1];
  int ne = o.Z; if (o.restricted) ne += ne & 1; if (o.lmax == 0) ne = std::min(ne, 4); if (o.lmax == 1) ne = std::min(ne, 10);
  o.nela = (ne + 1) / 2; o.nelb = ne / 2; o.verbosity = 0;
  OpenOrbitalOptimizer::steps() = (int)c.knob("steps", 1, 2); OpenOrbitalOptimizer::batch() = 1;
  if (c.flag("fixed occupations", 30)) { // given by the caller, possibly fractional
    double q = (double[]){0, 0.25, 0.5, 0.75, 1, 0.03125, 1.96875, 0.0009765625, 5.96875}[c.knob("fraction", 0, 8)], up = o.restricted ? o.nela + o.nelb : o.nela;
    auto split = [&](double n) { Eigen::VectorXd v = Eigen::VectorXd::Zero(o.lmax + 1); v(0) = n; if (o.lmax > 0) { double m = std::min(n, 6.0 * (o.restricted ? 1 : 0.5)); m = std::max(0.0, m - q); v(1) = m; v(0) -= m; } return v; };
    o.fixed_per_l_a = split(up); if (!o.restricted) o.fixed_per_l_b = split(o.nelb);
  }
  int mode = (int)c.knob("mode", 0, 5); // 0 healthy, 1,2 failing save, 3 failing load, 4 damaged, 5 truncated
  IoPlan p; double q = (double[]){0.0003, 0.002, 0.01}[c.knob("rate", 0, 2)]; if (c.flag("alloc", 12)) p.p_alloc = 0.4;
  if (mode == 1) for (int i = 0; i < SC_N; i++) p.p[i] = q;
  if (mode == 2) p.capacity = 800 + 400 * c.knob("capacity", 0, 150);
  if (mode == 3) for (int i : {SC_OPEN, SC_READ, SC_STAT, SC_CLOSE, SC_LOCK}) p.p[i] = q * 3;
  p.sticky = (int)c.knob("sticky", 0, 60); if (c.flag("soft", 30)) p.p_soft = 0.1;
  io_start(c, p);
  if (c.flag("existing", 30)) { OpenOrbitalOptimizer::trace() = nullptr; auto o2 = o; o2.Z = o.Z == 1 ? 2 : 1; o2.nela = 1; o2.nelb = o.restricted ? 1 : 0; o2.save_file = "r.chk"; Out x = run(1, false, [&] { sadatom::scf::run_atomic_scf(o2); }); (void)x; } // an older result of the same name
  OpenOrbitalOptimizer::Trace t1; OpenOrbitalOptimizer::trace() = &t1; sadatom::scf::AtomicSCFResult r1;
  o.save_file = "r.chk";
  Out a = run(2, mode == 1 || mode == 2, [&] { r1 = sadatom::scf::run_atomic_scf(o); });
  OpenOrbitalOptimizer::trace() = nullptr;
  if (!a.ok) { if (!a.hard) { auto o3 = o; o3.save_file.clear(); Out b = run(3, false, [&] { sadatom::scf::run_atomic_scf(o3); }); if (b.ok) bad("save failed without a fault", a.err); probe("input rejected"); } else probe("save reported a fault"); return; }
  if (a.hard) probe("fault absorbed by save");
  // the file holds this calculation
  auto eq = [&](const std::string &w, bool ok) { if (!ok) bad("restart file wrong", "the calculation finished normally but " + w + " in the restart file is missing or differs"); };
  double thr = 0; (void)thr;
  {
    IoPause z;
    try {
      Checkpoint k("r.chk", false); int i; Vector b;
      k.read("sadatom_Z", i); eq("Z", i == o.Z); k.read("sadatom_lmax", i); eq("lmax", i == o.lmax); k.read("sadatom_primbas", i); eq("polynomial family", i == o.poly->get_id()); k.read("sadatom_nnodes", i); eq("node count", i == o.poly->get_nnodes()); k.read("sadatom_Nquad", i); eq("quadrature order", i == o.Nquad);
      k.read("sadatom_bval", b); eq("grid", b.size() == o.bval.size() && !memcmp(b.data(), o.bval.data(), 8 * b.size()));
      for (int s = 0; s < (o.restricted ? 1 : 2); s++) {
        const Cube &P = s ? r1.Pl_b : r1.Pl_a; const Cube &C = s ? r1.orbs_b : r1.orbs_a; auto &oc = s ? r1.occs_orb_b : r1.occs_orb_a; auto &on = s ? r1.occs_b : r1.occs_a; std::string g = s ? "b" : "a";
        for (int l = 0; l <= o.lmax; l++) {
          Matrix m; k.read("sadatom_P" + g + "l_" + std::to_string(l), m); eq("density", m.rows() == P[l].rows() && m.cols() == P[l].cols() && !memcmp(m.data(), P[l].data(), 8 * m.size()));
          Matrix cc, oo; k.read("sadatom_C" + g + "l_" + std::to_string(l), cc); k.read("sadatom_occ" + g + "l_" + std::to_string(l), oo);
          // the occupied orbitals with their occupations rebuild the density
          Matrix D = cc.cols() ? Matrix(cc * oo.col(0).asDiagonal() * cc.transpose()) : Matrix(Matrix::Zero(P[l].rows(), P[l].cols()));
          eq("orbitals", D.rows() == P[l].rows() && (D - P[l]).cwiseAbs().maxCoeff() <= 1e-9 * std::max(1.0, P[l].cwiseAbs().maxCoeff()));
          long nocc = 0; for (long j = 0; j < oc[l].size(); j++) if (std::abs(oc[l](j)) > 1e-6) { bool hit = false; for (long n = 0; n < cc.cols(); n++) if (oo(n, 0) == oc[l](j) && !memcmp(cc.col(n).data(), C[l].col(j).data(), 8 * cc.rows())) hit = true; eq("an occupied orbital", hit); nocc++; }
          (void)nocc;
        }
        Eigen::MatrixXi im; k.read("sadatom_occs_" + g, im); eq("occupations", im.rows() == on.size() && im.cols() == 1); for (long n = 0; n < on.size(); n++) eq("occupations", im(n, 0) == on(n));
      }
    } catch (const std::exception &e) { bad("restart file wrong", std::string("the calculation finished normally but its restart file cannot be read: ") + e.what()); }
  }
  probe("restart file verified");
  bool refuse = false; std::string key, all = slurp("r.chk");
  if (mode == 4) {
    std::vector<std::string> keys = {"sadatom_Z", "sadatom_lmax", "sadatom_primbas", "sadatom_nnodes", "sadatom_Nquad", "sadatom_bval", "sadatom_occs_a"};
    for (int l = 0; l <= o.lmax; l++) { keys.push_back("sadatom_Pal_" + std::to_string(l)); if (!o.restricted) keys.push_back("sadatom_Pbl_" + std::to_string(l)); }
    if (!o.restricted) keys.push_back("sadatom_occs_b");
    Rng r = c.rng("damage"); key = keys[r.below(keys.size())]; int how = (int)c.knob("damage", 0, 1);
    Out x = run(5, false, [&] { Checkpoint d("r.chk", true, false); d.remove(key); if (how) d.write(key, std::string("damaged")); });
    if (!x.ok) bad("could not damage the file", x.err); refuse = how || key.find("occs_") == std::string::npos; // the electron counts are optional
  }
  if (mode == 5) { Rng r = c.rng("cut"); spew("r.chk", all.substr(0, r.below(all.size()))); refuse = true; }
  auto o2 = o; o2.load_file = "r.chk"; o2.save_file.clear(); OpenOrbitalOptimizer::Trace t2;
  // the restart may be restricted although the saved calculation was not, or the other way around
  bool otherspin = c.flag("otherspin", 25); if (otherspin) { o2.restricted = !o.restricted; o2.fixed_per_l_a = o2.fixed_per_l_b = Eigen::VectorXd(); }
  bool otherzero = c.flag("otherzero", 8); if (otherzero) o2.zeroder = !o.zeroder; OpenOrbitalOptimizer::trace() = &t2; sadatom::scf::AtomicSCFResult r2;
  a = run(6, mode == 3, [&] { r2 = sadatom::scf::run_atomic_scf(o2); });
  OpenOrbitalOptimizer::trace() = nullptr;
  if (!a.ok) { if (otherzero && !a.hard) { probe("restart in another basis refused"); return; } if (!refuse && !a.hard) bad("restart failed without a fault", a.err); probe(refuse ? "bad restart file refused" : "load reported a fault"); if (io_open_fds()) bad("descriptor leak by failed load", a.err); return; }
  if (refuse) bad(mode == 5 ? "truncated restart file accepted" : "inconsistent restart file accepted", "the calculation went on although " + (mode == 5 ? std::string("the file was truncated") : "\"" + key + "\" was missing or of another kind"));
  if (!t2.initialized_with_orbitals) bad("restart ignored", "the solver was not started from the loaded orbitals");
  Matrix Sh = r1.basis.Sinvh(); int nb = o.lmax + 1;
  if (otherspin) {
    for (int l = 0; l < nb; l++) {
      Matrix P = Matrix::Zero(Sh.rows(), Sh.rows()), W = r1.Pl_a[l]; if (!o.restricted) W += r1.Pl_b[l];
      for (int s = 0; s < (o2.restricted ? 1 : 2); s++) { Matrix C = Sh * t2.initial_orbitals[s * nb + l]; P += C * t2.initial_occupations[s * nb + l].asDiagonal() * C.transpose(); }
      double e = (P - W).cwiseAbs().maxCoeff(), sc = std::max(1.0, W.cwiseAbs().maxCoeff());
      if (!(e <= 1e-6 * sc)) bad("restart from altered state", std::string(o2.restricted ? "restricted" : "unrestricted") + " restart of " + (o.restricted ? "a restricted" : "an unrestricted") + " calculation: the total density of l=" + std::to_string(l) + " differs by " + str(e) + " from the saved one");
    }
    probe("restart with the other spin treatment verified"); return;
  }
  for (int s = 0; s < (o.restricted ? 1 : 2); s++) for (int l = 0; l < nb; l++) {
    Matrix C = Sh * t2.initial_orbitals[s * nb + l]; Matrix P = C * t2.initial_occupations[s * nb + l].asDiagonal() * C.transpose(); const Matrix &W = (s ? r1.Pl_b : r1.Pl_a)[l];
    double e = (P - W).cwiseAbs().maxCoeff(), sc = std::max(1.0, W.cwiseAbs().maxCoeff());
    if (!(e <= 1e-6 * sc)) bad("restart from altered state", "the density of l=" + std::to_string(l) + " differs by " + str(e) + " from the saved one");
  }
  double E1 = t1.energies.back(), E2 = t2.energies.front();
  if (!(std::abs(E1 - E2) <= 1e-6 * std::max(1.0, std::abs(E1)))) bad("restart energy differs", str(E2) + " instead of " + str(E1));
  probe("restart verified"); if (a.hard) probe("fault absorbed by load");
}
