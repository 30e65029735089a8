// R12: the list modi take from their files exactly the particles that stand there
#include <cmath>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <optional>
#include <sstream>
#include <vector>

#include "smash/action.h"
#include "smash/listmodus.h"
#include "smash/oscaroutput.h"
#include "smash/outputparameters.h"
#include "smash/particles.h"

#include "h.h"
#include "params.h"
#include "smashenv.h"
using namespace smash;
namespace fs = std::filesystem;
namespace {
const std::vector<const char *> species{"211", "-211", "2212", "2112", "3122", "-2212", "321", "2224", "22", "113", "-3122", "111", "221"};
const std::vector<ProcessType> types{ProcessType::None, ProcessType::Elastic, ProcessType::TwoToOne, ProcessType::TwoToTwo, ProcessType::Decay, ProcessType::Wall, ProcessType::StringHard, ProcessType::Bremsstrahlung, ProcessType::Fluidization};
struct Row {
  std::string pdg;
  double x[4], m, p[4];       // as in the file
  double expect_m, expect_e;  // what it has to become
  bool known = true;
  std::map<std::string, std::string> q;
  std::map<std::string, double> v;
  std::string mother[2];
};
std::string num(double v) {
  char b[40];
  snprintf(b, sizeof b, "%.17g", v);
  return b;
}
Row row(h::Rng &rng) {
  Row r;
  r.pdg = h::pick(rng, species);
  const ParticleType &t = ParticleType::find(PdgCode(r.pdg));
  double s = 0;
  for (int i = 0; i < 4; i++) {
    r.x[i] = h::chance(rng, .05) ? 0. : h::uni(rng, -20, 20);
    r.p[i] = i ? h::uni(rng, -2, 2) : 0;
    if (i) s += r.p[i] * r.p[i];
  }
  r.m = t.is_stable() ? t.mass() : t.mass() * h::uni(rng, .97, 1.2);
  r.p[0] = std::sqrt(s + r.m * r.m);
  r.expect_m = r.m;
  r.expect_e = r.p[0];
  const double k = h::uni(rng, 0, 1);
  if (k < .08) {  // not on its shell
    r.p[0] *= h::chance(rng, .5) ? h::uni(rng, 1.01, 2) : h::uni(rng, .3, .99);
    if (r.p[0] < .01) r.p[0] = 1.;
  } else if (k < .16 && t.is_stable()) {  // another mass than that of the list
    r.m = t.mass() * h::uni(rng, 1.01, 1.5) + .01;
    r.p[0] = h::chance(rng, .5) ? r.p[0] : std::sqrt(s + r.m * r.m);
  } else if (k < .2) {
    r.pdg = h::chance(rng, .5) ? "4122" : "-431";  // exists, but not in this list
    if (ParticleType::exists(PdgCode(r.pdg))) r.pdg = "211";
    else r.known = false;
  }
  if (r.pdg == "211" && r.expect_m != ParticleType::find(PdgCode("211")).mass()) return row(rng);
  return r;
}
const std::vector<std::string> fields{"ID", "charge", "ncoll", "form_time", "xsecfac", "proc_type", "time_last_coll", "pdg_mother1", "pdg_mother2", "spin0", "spinx", "spiny", "spinz", "perturbative_weight"};
void optional(h::Rng &rng, Row &r, const std::vector<std::string> &fs_) {
  for (const std::string &f : fs_) {
    double v = 0;
    std::string text;
    if (f == "ID") v = h::range(rng, 0, 100000);
    else if (f == "charge") v = r.known ? ParticleType::find(PdgCode(r.pdg)).charge() : 1;
    else if (f == "ncoll") v = h::range(rng, 0, 50);
    else if (f == "form_time") v = h::uni(rng, -10, 30);
    else if (f == "xsecfac" || f == "perturbative_weight") v = h::chance(rng, .1) ? h::range(rng, 0, 1) : h::uni(rng, 0, 1);
    else if (f == "proc_type") v = static_cast<int>(h::pick(rng, types));
    else if (f == "time_last_coll") v = r.x[0] - h::uni(rng, 0, 20);
    else if (f == "pdg_mother1" || f == "pdg_mother2") {
      const int i = f == "pdg_mother2";
      text = h::chance(rng, .3) ? "0" : h::pick(rng, species);
      r.mother[i] = text;
    } else v = h::uni(rng, -1, 1);
    if (text.empty()) text = num(v);
    r.v[f] = v;
    r.q[f] = text;
  }
}
std::string line(const Row &r, const std::vector<std::string> &f) {
  std::string s;
  for (double v : r.x) s += num(v) + " ";
  s += num(r.m);
  for (double v : r.p) s += " " + num(v);
  s += " " + r.pdg;
  for (const auto &k : f) s += " " + r.q.at(k);
  return s;
}
using Event = std::vector<Row>;
/// one of the ways to write it that the documentation allows
void write(h::Rng &rng, const fs::path &path, const std::vector<Event> &ev, const std::vector<std::string> &f, bool bare) {
  std::ofstream o(path);
  if (!bare) {
    o << "#!OSCAR2013 particle_lists t x y z mass p0 px py pz pdg ID charge\n# Units: fm fm fm fm GeV GeV GeV GeV GeV none none e\n";
    if (h::chance(rng, .5)) o << "# SMASH-3.3\n";
  }
  const int style = h::below(rng, 3);
  for (size_t i = 0; i < ev.size(); i++) {
    if (!bare) o << "# event " << i << (style == 0 ? " ensemble 0" : "") << (style < 2 ? " out " + std::to_string(ev[i].size()) : "") << "\n";
    for (const Row &r : ev[i]) {
      o << line(r, f);
      if (!bare && h::chance(rng, .05)) o << " # a comment";
      o << "\n";
      if (!bare && h::chance(rng, .02)) o << (h::chance(rng, .5) ? "# a comment\n" : "\n");
    }
    if (!bare) o << "# event " << i << (style == 0 ? " ensemble 0 end 0 impact   0.000 scattering_projectile_target yes" : style == 1 ? " end 0 impact  1.5" : " end") << "\n";
  }
}
ListModus modus(const fs::path &dir, const std::string &file, std::optional<int> shift, const std::vector<std::string> *f,
                const ExperimentParameters &par, bool box = false, double length = 10) {
  Configuration c{box ? "Modi:\n  ListBox:\n    File_Directory: X\n    Length: 1\n" : "Modi:\n  List:\n    File_Directory: X\n"};
  c.set_value(box ? InputKeys::modi_listBox_fileDirectory : InputKeys::modi_list_fileDirectory, dir.string());
  if (shift) {
    c.set_value(box ? InputKeys::modi_listBox_filePrefix : InputKeys::modi_list_filePrefix, file);
    if (*shift || length < 15) c.set_value(box ? InputKeys::modi_listBox_shiftId : InputKeys::modi_list_shiftId, int(*shift));
  } else
    c.set_value(box ? InputKeys::modi_listBox_filename : InputKeys::modi_list_filename, file);
  if (f) c.set_value(box ? InputKeys::modi_listBox_optionalQuantities : InputKeys::modi_list_optionalQuantities, *f);
  if (box) {
    c.set_value(InputKeys::modi_listBox_length, double(length));
    return ListBoxModus(std::move(c), par);
  }
  return ListModus(std::move(c), par);
}
void compare(const Event &e, const Particles &ps, double start, const std::vector<std::string> &f, const char *key) {
  std::vector<const Row *> rows;
  for (const Row &r : e)
    if (r.known) rows.push_back(&r);
  if (rows.size() != ps.size()) return h::fail(std::string(key) + "/number", "%zu particles instead of %zu", ps.size(), rows.size());
  double tmin = rows.empty() ? 0 : 1e300, spread = 0;
  for (auto r : rows) {
    tmin = std::min(tmin, r->x[0]);
    spread += std::abs(r->x[0] - rows[0]->x[0]);
  }
  if (start != tmin) h::fail(std::string(key) + "/start", "starts at %.17g instead of %.17g", start, tmin);
  size_t i = 0;
  for (const ParticleData &p : ps) {
    const Row &r = *rows[i++];
    const FourVector q = p.momentum(), x = p.position();
    const auto bad = [&](const char *what, double got, double want) {
      h::fail(std::string(key) + "/" + what, "particle %zu (%s): %s %.17g instead of %.17g", i - 1, r.pdg.c_str(), what, got, want);
    };
    if (!(p.pdgcode() == PdgCode(r.pdg))) h::fail(std::string(key) + "/pdg", "%s instead of %s", p.pdgcode().string().c_str(), r.pdg.c_str());
    for (int k = 1; k < 4; k++)
      if (q[k] != r.p[k]) bad("momentum", q[k], r.p[k]);
    if (!h::close(q[0], r.expect_e, 1e-12)) bad("energy", q[0], r.expect_e);
    const bool back = spread > 1e-5;
    for (int k = 1; k < 4; k++) {
      const double want = back ? r.x[k] + (tmin - r.x[0]) * q[k] / q[0] : r.x[k];
      if (back ? !h::close(x[k], want, 1e-12, 1e-12) : x[k] != want) bad("position", x[k], want);
    }
    if (x[0] != (back ? tmin : r.x[0])) bad("time", x[0], back ? tmin : r.x[0]);
    const bool has_ft = r.v.count("form_time") > 0, has_xs = r.v.count("xsecfac") > 0;
    if (back) {
      // it comes into being where and when the file says
      if (!has_ft && p.formation_time() != r.x[0]) bad("formation", p.formation_time(), r.x[0]);
    } else {
      if (p.formation_time() != (has_ft ? r.v.at("form_time") : r.x[0])) bad("formation", p.formation_time(), has_ft ? r.v.at("form_time") : r.x[0]);
      if (p.initial_xsec_scaling_factor() != (has_xs ? r.v.at("xsecfac") : 1.)) bad("xsecfac", p.initial_xsec_scaling_factor(), has_xs ? r.v.at("xsecfac") : 1.);
    }
    const HistoryData &hist = p.get_history();
    const auto val = [&](const char *n) { return r.v.count(n) ? r.v.at(n) : 0.; };
    if (hist.collisions_per_particle != val("ncoll")) bad("ncoll", hist.collisions_per_particle, val("ncoll"));
    if (static_cast<int>(hist.process_type) != val("proc_type")) bad("proc_type", static_cast<int>(hist.process_type), val("proc_type"));
    if (r.v.count("time_last_coll") && hist.time_last_collision != val("time_last_coll")) bad("time_last_coll", hist.time_last_collision, val("time_last_coll"));
    for (int k = 0; k < 2; k++) {
      const std::string &m = r.mother[k];
      const PdgCode got = k ? hist.p2 : hist.p1, want = m.empty() || m == "0" ? PdgCode(0x0) : PdgCode(m);
      if (!(got == want)) h::fail(std::string(key) + "/mother", "mother %d is %s instead of %s", k + 1, got.string().c_str(), m.c_str());
    }
    const char *sp[4] = {"spin0", "spinx", "spiny", "spinz"};
    for (int k = 0; k < 4; k++)
      if (r.v.count(sp[k]) && p.spin_vector()[k] != val(sp[k])) bad(sp[k], p.spin_vector()[k], val(sp[k]));
    if (r.v.count("perturbative_weight") && p.perturbative_weight() != val("perturbative_weight")) bad("weight", p.perturbative_weight(), val("perturbative_weight"));
    h::evaluated(h::mix(std::hash<double>{}(r.p[1]), i));
  }
}
std::vector<Event> events(h::Rng &rng, int n, const std::vector<std::string> &f, bool some) {
  std::vector<Event> ev(static_cast<size_t>(n));
  for (Event &e : ev) {
    const int k = !some && h::chance(rng, .15) ? 0 : h::chance(rng, .1) ? h::range(rng, 50, 200) : h::range(rng, some ? 6 : 1, 12);
    const bool same = h::chance(rng, .4);
    const double t = h::uni(rng, -5, 5);
    for (int i = 0; i < k; i++) {
      Row r = row(rng);
      if (same) r.x[0] = t;
      if (i && h::chance(rng, .03) && !(e.size() > 1 && e[e.size() - 2].x[1] == e.back().x[1]))
        std::copy(e.back().x, e.back().x + 4, r.x);  // two at the same place are allowed
      optional(rng, r, f);
      e.push_back(r);
    }
  }
  return ev;
}
std::vector<std::string> some_fields(h::Rng &rng, bool &given) {
  given = h::chance(rng, .75);
  if (!given) return {"ID", "charge"};
  std::vector<std::string> f = fields;
  std::shuffle(f.begin(), f.end(), rng);
  f.resize(size_t(h::range(rng, 0, int(f.size()))));
  return f;
}

void files(h::Rng &rng) {
  h::load_mid();
  const auto par = h::params();
  for (int n = 0; n < h::tier(300); n++) {
    const fs::path dir = fs::absolute("lists");
    fs::remove_all(dir);
    fs::create_directories(dir);
    bool given;
    const auto f = some_fields(rng, given);
    const bool prefix = h::chance(rng, .5), box = h::chance(rng, .3), bare = h::chance(rng, .15);
    const int shift = h::chance(rng, .3) ? 0 : h::range(rng, 1, 12);
    std::vector<Event> all;
    int nfiles = prefix ? h::range(rng, 1, 4) : 1;
    std::string name = h::chance(rng, .5) ? "event" : "a_list.of 7_particles-";
    h::at("list %d: %d files, %s%s", n, nfiles, bare ? "bare " : "", box ? "box" : "");
    for (int k = 0; k < nfiles; k++) {
      auto ev = events(rng, bare ? 1 : h::range(rng, 1, 5), f, bare);
      write(rng, dir / (prefix ? name + std::to_string(shift + k) : name), ev, f, bare);
      all.insert(all.end(), ev.begin(), ev.end());
    }
    ListModus m = modus(dir, name, prefix ? std::optional<int>(shift) : std::nullopt, given || !f.size() ? &f : nullptr, par, box, h::uni(rng, 10, 20));
    for (size_t i = 0; i < all.size(); i++) {
      Particles ps;
      double start = 1e99;
      try {
        start = m.initial_conditions(&ps, par);
      } catch (std::exception &e) {
        h::fail("files/refused", "event %zu of %zu: %s", i, all.size(), e.what());
        break;
      }
      compare(all[i], ps, start, f, "files");
      h::count("events read");
    }
    bool thrown = false;
    try {
      Particles ps;
      m.initial_conditions(&ps, par);
    } catch (std::exception &) {
      thrown = true;
    }
    if (!thrown) h::fail("files/more", "another event after the last one");
  }
}
h::Reg r1("files", files);

/// what is wrong must not be simulated
void faults(h::Rng &rng) {
  h::load_mid();
  const auto par = h::params();
  for (int n = 0; n < h::tier(400); n++) {
    const fs::path dir = fs::absolute("faulty");
    fs::remove_all(dir);
    fs::create_directories(dir);
    std::vector<std::string> f = fields;
    std::shuffle(f.begin(), f.end(), rng);
    auto ev = events(rng, h::range(rng, 1, 3), f, true);
    const size_t which = size_t(h::below(rng, int(ev.size())));
    Event &e = ev[which];
    Row &r = e[size_t(h::below(rng, int(e.size())))];
    if (!r.known) continue;
    const int kind = h::below(rng, 12);
    const char *what = "";
    switch (kind) {
      case 0: what = "charge"; r.q[what] = std::to_string(int(r.v["charge"]) + (h::chance(rng, .5) ? 1 : -1)); break;
      case 1: what = "ncoll"; r.q[what] = "-" + std::to_string(h::range(rng, 1, 5)); break;
      case 2: what = "xsecfac"; r.q[what] = num(h::chance(rng, .5) ? h::uni(rng, 1.001, 2) : h::uni(rng, -1, -.001)); break;
      case 3: what = "proc_type"; r.q[what] = h::chance(rng, .5) ? "77" : "-1"; break;
      case 4: what = "time_last_coll"; r.q[what] = num(r.x[0] + h::uni(rng, .001, 5)); break;
      case 5: what = "pdg_mother1"; r.q[what] = "4122"; break;
      case 6: what = "pdg_mother2"; r.q[what] = "4122"; break;
      case 7: what = "perturbative_weight"; r.q[what] = num(h::chance(rng, .5) ? h::uni(rng, 1.001, 2) : h::uni(rng, -1, -.001)); break;
      case 8: what = "nan"; r.p[h::below(rng, 4)] = NAN; break;
      case 9: what = "three particles at a place"; for (int i = 0; i < 3; i++) { std::copy(r.x, r.x + 4, e[size_t(i)].x); std::copy(r.x, r.x + 4, e[size_t(i + 3)].x); } for (Row &q : e) q.known = true, q.pdg = q.pdg == "4122" || q.pdg == "-431" ? "2112" : q.pdg; break;
      case 10: what = "short line"; break;
      default: what = "unknown quantity"; break;
    }
    for (Row &q : e)
      if (kind == 9) {
        q.q["time_last_coll"] = num(-100);
        q.q["charge"] = std::to_string(PdgCode(q.pdg).charge());
      }
    h::at("fault %d: %s in event %zu", n, what, which);
    write(rng, dir / "x0", ev, f, false);
    if (kind == 10) {
      std::string t = h::slurp((dir / "x0").string()), l = line(r, f);
      const size_t at = t.find(l);
      std::string cut = l.substr(0, l.find_last_of(' '));
      for (int i = h::below(rng, 6); i > 0; i--) cut = cut.substr(0, cut.find_last_of(' '));
      t.replace(at, l.size(), cut);
      std::ofstream(dir / "x0") << t;
    }
    auto g = f;
    if (kind == 11) g[size_t(h::below(rng, int(g.size())))] = "spin4";
    bool thrown = false;
    size_t i = 0;
    std::string why;
    try {
      ListModus m = modus(dir, "x0", std::nullopt, &g, par);
      for (; i < ev.size(); i++) {
        Particles ps;
        m.initial_conditions(&ps, par);
      }
    } catch (std::exception &e) {
      thrown = true;
      why = e.what();
    }
    if (!thrown) h::fail(std::string("faults/") + what, "read without complaint");
    // more than two at a place are found before the first event
    if (thrown && kind != 9 && kind != 11 && i != which) h::fail(std::string("faults/early/") + what, "refused at event %zu instead of %zu: %s", i, which, why.c_str());
    if (thrown && kind == 9 && i != 0) h::fail("faults/late", "found only at event %zu", i);
    h::evaluated(std::string(what) + std::to_string(n));
    h::count(what);
  }
  bool thrown = false;
  try {
    Particles ps;
    modus(fs::absolute("nothing_here"), "x", 0, nullptr, par).initial_conditions(&ps, par);
  } catch (std::exception &) {
    thrown = true;
  }
  if (!thrown) h::fail("faults/missing", "no complaint about a missing file");
  // not both names, not more than one ensemble
  for (int k = 0; k < 3; k++) {
    thrown = false;
    Configuration c{"Modi:\n  List:\n    File_Directory: lists\n"};
    if (k == 0) c.set_value(InputKeys::modi_list_filePrefix, std::string("a")), c.set_value(InputKeys::modi_list_filename, std::string("a"));
    if (k == 2) c.set_value(InputKeys::modi_list_filename, std::string("a"));
    try {
      ListModus m(std::move(c), h::params(1, .1, 0, 300, 1, 4, k == 2 ? 2 : 1));
    } catch (std::exception &) {
      thrown = true;
    }
    c.clear();
    if (!thrown) h::fail("faults/keys", "no complaint about configuration %d", k);
  }
}
h::Reg r2("faults", faults);

/// SMASH's own output, read back
void again(h::Rng &rng) {
  h::load_mid();
  const auto par = h::params();
  for (int n = 0; n < h::tier(120); n++) {
    const fs::path dir = fs::absolute("again");
    fs::remove_all(dir);
    fs::create_directories(dir);
    OutputParameters op;
    op.part_only_final = OutputOnlyFinal::Yes;
    op.part_extended = h::chance(rng, .5);
    h::at("own output %d, %s", n, op.part_extended ? "extended" : "not extended");
    const int nev = h::range(rng, 1, 4);
    std::vector<Particles> all(static_cast<size_t>(nev));
    {
      auto out = create_oscar_output("Oscar2013", "Particles", dir, op);
      for (int i = 0; i < nev; i++) {
        Particles &ps = all[size_t(i)];
        const double t = std::round(h::uni(rng, 1, 50) * 10) / 10;
        for (int k = h::chance(rng, .1) ? 0 : h::range(rng, 1, 20); k > 0; k--) {
          Row r = row(rng);
          if (!r.known) continue;
          ParticleData p(ParticleType::find(PdgCode(r.pdg)));
          p.set_4momentum(r.expect_m, ThreeVector(r.p[1], r.p[2], r.p[3]));
          p.set_4position(FourVector(t, r.x[1], r.x[2], r.x[3]));
          HistoryData hist;
          hist.collisions_per_particle = h::range(rng, 0, 9);
          hist.process_type = h::pick(rng, types);
          hist.time_last_collision = t - h::uni(rng, .1, 5);
          if (h::chance(rng, .7)) hist.p1 = PdgCode(std::string(h::pick(rng, species)));
          if (h::chance(rng, .7)) hist.p2 = PdgCode(std::string(h::pick(rng, species)));
          p.set_history(std::move(hist));
          p.set_formation_time(h::uni(rng, 0, 60));
          p.set_cross_section_scaling_factor(h::uni(rng, 0, 1));
          ps.insert(p);
        }
        EventInfo info{1.5, 0., t, 0., 0., 0., 1, 1, ps.size() == 0, ps.size() == 0};
        out->at_eventstart(ps, {i, 0}, info);
        out->at_eventend(ps, {i, 0}, info);
      }
    }
    std::vector<std::string> f{"ID", "charge"};
    if (op.part_extended) f = {"ID", "charge", "ncoll", "form_time", "xsecfac", "proc_id_origin", "proc_type", "time_last_coll", "pdg_mother1", "pdg_mother2", "baryon_number", "strangeness"};
    // the columns that are no input
    std::string t = h::slurp((dir / "particle_lists.oscar").string());
    if (op.part_extended) {
      std::istringstream in(t);
      std::string l, o;
      while (getline(in, l)) {
        if (l[0] != '#') {
          std::istringstream w(l);
          std::string word, k;
          for (int c = 0; w >> word; c++)
            if (c != 15 && c < 20) k += word + " ";
          l = k;
        }
        o += l + "\n";
      }
      t = o;
      f = {"ID", "charge", "ncoll", "form_time", "xsecfac", "proc_type", "time_last_coll", "pdg_mother1", "pdg_mother2"};
    }
    std::ofstream(dir / "list") << t;
    try {
      ListModus m = modus(dir, "list", std::nullopt, &f, par);
      for (Particles &want : all) {
        Particles got;
        m.initial_conditions(&got, par);
        if (got.size() != want.size()) {
          h::fail("again/number", "%zu particles instead of %zu", got.size(), want.size());
          continue;
        }
        auto a = got.begin();
        for (const ParticleData &p : want) {
          const ParticleData &q = *a;
          ++a;
          if (!(p.pdgcode() == q.pdgcode())) h::fail("again/pdg", "another particle");
          for (int k = 0; k < 4; k++) {
            if (!h::close(p.momentum()[k], q.momentum()[k], 2e-5, 1e-7)) h::fail("again/momentum", "component %d is %.9g instead of %.9g", k, q.momentum()[k], p.momentum()[k]);
            if (!h::close(p.position()[k], q.position()[k], 2e-5, 1e-7)) h::fail("again/position", "component %d is %.9g instead of %.9g", k, q.position()[k], p.position()[k]);
          }
          if (op.part_extended) {
            const HistoryData a1 = p.get_history(), b1 = q.get_history();
            if (a1.collisions_per_particle != b1.collisions_per_particle || a1.process_type != b1.process_type || !(a1.p1 == b1.p1) || !(a1.p2 == b1.p2) ||
                !h::close(a1.time_last_collision, b1.time_last_collision, 2e-5))
              h::fail("again/history", "another history");
            if (!h::close(p.formation_time(), q.formation_time(), 2e-5) || !h::close(p.xsec_scaling_factor(), q.initial_xsec_scaling_factor(), 2e-5, 1e-7))
              h::fail("again/formation", "formed at %.9g, factor %.9g instead of %.9g, %.9g", q.formation_time(), q.initial_xsec_scaling_factor(), p.formation_time(), p.xsec_scaling_factor());
          }
          h::evaluated(std::hash<double>{}(p.momentum()[1]));
        }
      }
    } catch (std::exception &e) {
      h::fail("again/refused", "%s", e.what());
    }
  }
}
h::Reg r3("again", again);

/// walls of a box with given particles
void walls(h::Rng &rng) {
  h::load_mid();
  const auto par = h::params();
  const fs::path dir = fs::absolute("box");
  fs::create_directories(dir);
  for (int n = 0; n < h::tier(60); n++) {
    const double length = h::uni(rng, 20.1, 40);
    h::at("box %d of %g fm", n, length);
    auto ev = events(rng, 1, {}, true);
    for (Row &r : ev[0]) r.x[0] = ev[0][0].x[0];
    write(rng, dir / "b0", ev, {}, false);
    Configuration c{"Modi:\n  ListBox:\n    File_Directory: X\n    Length: 1\n    Optional_Quantities: []\n    Filename: b0\n"};
    c.set_value(InputKeys::modi_listBox_fileDirectory, dir.string());
    c.set_value(InputKeys::modi_listBox_length, double(length));
    ListBoxModus m(std::move(c), par);
    if (!m.is_box() || !m.is_list()) h::fail("walls/modus", "neither list nor box");
    Particles ps;
    m.initial_conditions(&ps, par);
    std::vector<ParticleData> before(ps.begin(), ps.end());
    int crossed = 0;
    const int w = m.impose_boundary_conditions(&ps);
    size_t i = 0;
    for (const ParticleData &p : ps) {
      const ParticleData &b = before[i++];
      bool out = false;
      for (int k = 1; k < 4; k++) {
        const double x = b.position()[k], y = p.position()[k];
        if (x < 0 || x >= length) out = true;
        if (!(y >= 0 && y <= length)) h::fail("walls/outside", "a particle at %g in a box of %g", y, length);
        const double turns = (x - y) / length;
        if (std::abs(turns - std::round(turns)) > 1e-9) h::fail("walls/shift", "from %g to %g in a box of %g", x, y, length);
        if (p.momentum()[k] != b.momentum()[k]) h::fail("walls/momentum", "changed");
      }
      if (p.position()[0] != b.position()[0]) h::fail("walls/time", "changed");
      crossed += out;
    }
    if (w != crossed) h::fail("walls/count", "%d wraps instead of %d", w, crossed);
    h::evaluated(std::hash<double>{}(length));
  }
}
h::Reg r4("walls", walls);
}  // namespace
HARNESS_MAIN
