// An explicit model of what an input document must look like: the schema's structure and the rules between its parts.
// Written from the documentation and the schema; the code under test is not used.
#pragma once
#include "pugixml.hpp"
#include <cmath>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace schema {
enum class Verdict { accept, reject, either };
struct Judgement {
  Verdict v = Verdict::accept;
  std::string why;
  std::vector<std::string> named;  // what the message must mention, empty: nothing in particular
};
enum Type { none, any, dbl, nonneg, positive, posint, particle, particles, tracking, xslist, dlist, sense, uri };
struct Attr { std::string name; bool required; Type type; };
struct Elem;
struct Child { const Elem* e; bool required; };
struct Elem {
  std::string name;
  enum Mode { all, one, many, text, empty, anything } mode;
  std::vector<Child> children;
  std::vector<Attr> attrs;
  Type type = none;
};
inline std::string trim(const std::string& s) { const char* w = " \t\r\n"; const size_t a = s.find_first_not_of(w); return a == std::string::npos ? "" : s.substr(a, s.find_last_not_of(w) - a + 1); }
inline std::vector<std::string> tokens(const std::string& s) { std::stringstream x(s); std::vector<std::string> r; for (std::string t; x >> t;) r.push_back(t); return r; }
inline bool plain(const std::string& s) {
  size_t i = 0, d = 0;
  if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
  while (i < s.size() && isdigit((unsigned char)s[i])) i++, d++;
  if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && isdigit((unsigned char)s[i])) i++, d++; }
  if (!d) return false;
  if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
    i++;
    if (i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
    size_t k = 0;
    while (i < s.size() && isdigit((unsigned char)s[i])) i++, k++;
    if (!k) return false;
  }
  return i == s.size();
}
// 1 valid, 0 invalid, -1 left open
inline int lexical(Type t, const std::string& raw) {
  const std::string s = trim(raw);
  auto number = [](const std::string& x) { return plain(x) || x == "INF" || x == "-INF" || x == "NaN"; };
  auto in = [](const std::string& x, double lo, bool open) -> int {
    if (x == "NaN" || x == "INF") return -1;
    if (x == "-INF") return 0;
    if (!plain(x)) return 0;
    const double v = std::atof(x.c_str());
    return std::isinf(v) ? -1 : open ? v > lo : v >= lo;
  };
  switch (t) {
  case none: return s.empty();
  case any: return 1;
  case uri: return 1;
  case dbl: return !number(s) ? 0 : plain(s) && std::isfinite(std::atof(s.c_str())) ? 1 : -1;
  case nonneg: return in(s, 0, false);
  case positive: return in(s, 0, true);
  case posint: {
    std::string x = s;
    if (!x.empty() && x[0] == '+') x = x.substr(1);
    if (x.empty() || x.find_first_not_of("0123456789") != std::string::npos || x.find_first_not_of('0') == std::string::npos) return 0;
    return x.size() > 9 ? -1 : 1;
  }
  case particle: return raw == "neutron" || raw == "photon";
  case particles: { const auto v = tokens(raw); for (auto& x : v) if (x != "neutron" && x != "photon") return 0; return v.empty() ? -1 : 1; }
  case tracking: return raw == "surface" || raw == "cell delta";
  case sense: return raw == "+1" || raw == "-1";
  case xslist: { int r = 1; for (auto& x : tokens(raw)) { const int k = in(x, 0, false); if (k == 0) return 0; if (k < 0) r = -1; } return r; }
  case dlist: { const auto v = tokens(raw); if (v.empty()) return 0; for (auto& x : v) if (!number(x)) return 0; return 1; }
  }
  return -1;
}
inline const Elem& root() {
  static std::vector<Elem*> keep;
  auto mk = [](const std::string& n, Elem::Mode m, std::vector<Child> c = {}, std::vector<Attr> a = {}, Type t = none) { keep.push_back(new Elem{n, m, c, a, t}); return (const Elem*)keep.back(); };
  static const Elem* r = [&] {
    auto req = [](const Elem* e) { return Child{e, true}; };
    auto opt = [](const Elem* e) { return Child{e, false}; };
    auto text = [&](const char* n, Type t) { return mk(n, Elem::text, {}, {}, t); };
    const std::vector<Attr> xyz{{"x", true, dbl}, {"y", true, dbl}, {"z", true, dbl}};
    auto general = mk("general", Elem::all, {req(text("particles", particles)), req(text("histories", posint)), req(text("threads", posint)), req(text("chunksize", posint)), opt(text("seed", posint)), opt(text("tracking", tracking))});
    auto mg = [&](const char* n) {
      return mk(n, Elem::all, {opt(text("capture", xslist)), opt(text("scatter", xslist)), opt(mk("fission", Elem::all, {req(text("xs", xslist)), req(text("nubar", xslist)), req(text("chi", xslist))}))});
    };
    auto mgn = mk("nuclide", Elem::all, {opt(mg("neutron")), opt(mg("photon"))}, {{"name", true, any}});
    auto multigroup = mk("multigroup", Elem::many, {req(mgn)}, {{"groups", true, posint}});
    const std::vector<Attr> ev{{"file", true, uri}, {"temperature", true, positive}};
    auto eval = [&](const char* n) { return mk(n, Elem::empty, {}, ev); };
    auto part = [&](const char* n, const char* third) { return mk(n, Elem::many, {req(mk("partition", Elem::empty, {}, {{"CDF", true, uri}, {"S", true, uri}, {third, true, uri}}))}); };
    auto tsl = mk("tsl", Elem::all, {req(part("beta_partitions", "E_T")), req(part("alpha_partitions", "beta_T"))},
                  {{"majorant", true, uri}, {"total_E", true, uri}, {"total_T", true, uri}, {"total_S", true, uri}, {"beta_cutoff", true, positive}, {"alpha_cutoff", true, positive}});
    auto ce = [&](const char* n) {
      return mk(n, Elem::all, {opt(eval("total")), opt(eval("capture")), opt(mk("scatter", Elem::all, {req(eval("xs")), opt(tsl)})), opt(mk("fission", Elem::all, {req(eval("xs")), req(eval("nubar"))}))});
    };
    auto cen = mk("nuclide", Elem::all, {opt(ce("neutron")), opt(ce("photon"))}, {{"name", true, any}, {"awr", true, positive}});
    auto continuous = mk("continuous", Elem::many, {req(cen)});
    auto nuclides = mk("nuclides", Elem::one, {req(multigroup), req(continuous)});
    auto material = mk("material", Elem::many, {req(mk("nuclide", Elem::empty, {}, {{"name", true, any}, {"afrac", true, positive}}))}, {{"name", true, any}, {"aden", true, positive}});
    auto materials = mk("materials", Elem::many, {req(material)});
    auto sphere = mk("sphere", Elem::all, {req(mk("center", Elem::empty, {}, xyz)), req(mk("radius", Elem::empty, {}, {{"r", true, positive}}))}, {{"name", true, any}});
    auto surfaces = mk("surfaces", Elem::many, {req(sphere), req(mk("planex", Elem::empty, {}, {{"name", true, any}, {"x", true, dbl}})), req(mk("cylinderx", Elem::empty, {}, {{"name", true, any}, {"r", true, dbl}}))});
    auto csurf = mk("surface", Elem::empty, {}, {{"name", true, any}, {"sense", true, sense}});
    auto cells = mk("cells", Elem::many, {req(mk("cell", Elem::many, {req(csurf)}, {{"name", true, any}, {"material", true, any}, {"temperature", false, nonneg}})), req(mk("void", Elem::many, {req(csurf)}))});
    auto temperature = mk("temperature", Elem::one, {req(mk("constant", Elem::empty, {}, {{"c", true, dbl}})),
                                                     req(mk("linear", Elem::all, {req(mk("bounds", Elem::empty, {}, {{"lower", true, dbl}, {"upper", true, dbl}})), req(mk("intercept", Elem::empty, {}, {{"b", true, dbl}})), req(mk("gradient", Elem::empty, {}, xyz))}))});
    auto source = [&](const char* n) {
      return mk(n, Elem::all, {req(mk("position", Elem::one, {req(mk("constant", Elem::empty, {}, xyz))})),
                               req(mk("direction", Elem::one, {req(mk("constant", Elem::empty, {}, xyz)), req(mk("isotropic", Elem::anything)), req(mk("isotropic-flux", Elem::empty, {}, xyz))})),
                               req(mk("energy", Elem::one, {req(mk("constant", Elem::empty, {}, {{"energy", true, positive}}))})),
                               req(mk("particletype", Elem::one, {req(mk("constant", Elem::empty, {}, {{"type", false, particle}}))}))});
    };
    auto problem = mk("problemtype", Elem::one, {req(source("fixedsource")), req(mk("keigenvalue", Elem::all, {req(source("initialsource"))}, {{"inactive", true, posint}, {"active", true, posint}}))});
    auto bins = [&](const char* n, std::vector<Attr> a) {
      const std::vector<Attr> range{{"min", true, dbl}, {"max", true, dbl}, {"bins", true, posint}};
      auto log = range;
      log.push_back({"base", false, dbl});
      return mk(n, Elem::one, {req(mk("linspace", Elem::empty, {}, range)), req(mk("logspace", Elem::empty, {}, log)), req(text("boundaries", dlist))}, a);
    };
    auto pbins = mk("bins", Elem::all, {opt(bins("energy", {})), opt(bins("cosine", {{"u", true, dbl}, {"v", true, dbl}, {"w", true, dbl}}))});
    auto senses = mk("sensitivities", Elem::many, {req(mk("perturbation", Elem::empty, {}, {{"name", false, any}}))});
    auto estimators = mk("estimators", Elem::many, {req(mk("current", Elem::all, {opt(pbins), opt(senses)}, {{"name", true, any}, {"surface", true, any}}))});
    auto perturbations = mk("perturbations", Elem::many, {req(mk("total", Elem::empty, {}, {{"name", true, any}, {"nuclide", true, any}}))});
    return mk("minimc", Elem::all, {req(general), req(nuclides), req(materials), req(surfaces), req(cells), opt(temperature), req(problem), opt(estimators), opt(perturbations)});
  }();
  return *r;
}
inline const Elem* child(const Elem& e, const std::string& n) { for (auto& c : e.children) if (c.e->name == n) return c.e; return nullptr; }
inline std::string text_of(const pugi::xml_node& n) { std::string s; for (auto c : n.children()) if (c.type() == pugi::node_pcdata || c.type() == pugi::node_cdata) s += c.value(); return s; }

class Model {
public:
  // read: whether a data file can be read as a table with that many dimensions
  // first: the values along a table's first axis
  Model(std::function<bool(const std::string&, int)> read, std::function<std::vector<double>(const std::string&)> first) : read_{read}, first_{first} {}
  Judgement judge(const pugi::xml_node& r) {
    j_ = {};
    open_ = false;
    if (std::string(r.name()) != "minimc") return {Verdict::reject, "another root", {}};
    const std::string loc = r.attribute("xsi:noNamespaceSchemaLocation").as_string();
    if (loc != "minimc.xsd") return {Verdict::reject, "no schema", {}};
    structure(root(), r, true);
    if (j_.v == Verdict::reject) return j_;
    // a value which the schema leaves open may be rejected for that; what is wrong besides is wrong in either case
    const bool open = open_;
    unique(r);
    if (j_.v == Verdict::accept) meaning(r);
    if (open) j_.named.clear();
    if (j_.v == Verdict::accept && open_) j_.v = Verdict::either;
    return j_;
  }

private:
  std::function<bool(const std::string&, int)> read_;
  std::function<std::vector<double>(const std::string&)> first_;
  Judgement j_;
  bool open_ = false;
  void reject(const std::string& why, std::vector<std::string> named = {}) { if (j_.v != Verdict::reject) j_ = {Verdict::reject, why, named}; else j_.named.clear(); }
  void structure(const Elem& e, const pugi::xml_node& n, bool top = false) {
    if (e.mode == Elem::anything) { if (n.first_child() || n.first_attribute()) open_ = true; return; }
    std::map<std::string, int> seen;
    for (auto a : n.attributes()) {
      const std::string an = a.name();
      if (an.rfind("xmlns", 0) == 0 || an.rfind("xsi:", 0) == 0) { if (!top) open_ = true; continue; }
      const Attr* m = nullptr;
      for (auto& x : e.attrs) if (x.name == an) m = &x;
      if (!m) { reject("unknown attribute " + an); continue; }
      const int l = lexical(m->type, a.value());
      if (l == 0) reject("value of attribute " + an);
      if (l < 0) open_ = true;
      if (m->type == uri && (std::string(a.value()).empty() || std::string(a.value()).find_first_of(" <>\"{}|\\^`%#") != std::string::npos)) open_ = true;
    }
    for (auto& x : e.attrs) if (x.required && !n.attribute(x.name.c_str())) reject("missing attribute " + x.name);
    if (e.mode == Elem::text) {
      for (auto c : n.children()) if (c.type() == pugi::node_element) reject("element in text");
      const int l = lexical(e.type, text_of(n));
      if (l == 0) reject("text of " + e.name);
      if (l < 0) open_ = true;
      return;
    }
    if (!trim(text_of(n)).empty()) reject("text in " + e.name);
    int total = 0;
    for (auto c : n.children()) {
      if (c.type() != pugi::node_element) continue;
      const Elem* m = child(e, c.name());
      if (!m) { reject(std::string("unknown element ") + c.name()); continue; }
      seen[c.name()]++;
      total++;
      structure(*m, c);
    }
    if (e.mode == Elem::all) for (auto& c : e.children) {
      if (c.required && !seen.count(c.e->name)) reject("missing element " + c.e->name);
      if (seen.count(c.e->name) && seen[c.e->name] > 1) reject("repeated element " + c.e->name);
    }
    if (e.mode == Elem::one && total != 1) reject("not one choice in " + e.name);
    if (e.mode == Elem::many && total < 1) reject("nothing in " + e.name);
  }
  void distinct(const pugi::xml_node& n, const char* only) {
    std::set<std::string> s;
    for (auto c : n.children()) {
      if (c.type() != pugi::node_element || (only && std::string(c.name()) != only) || !c.attribute("name")) continue;
      if (!s.insert(c.attribute("name").value()).second) reject("a name twice");
    }
  }
  void unique(const pugi::xml_node& r) {
    distinct(r.child("materials"), nullptr);
    for (auto m : r.child("materials").children("material")) distinct(m, "nuclide");
    distinct(r.child("surfaces"), nullptr);
    distinct(r.child("cells"), "cell");
    for (auto c : r.child("cells").children("cell")) distinct(c, "surface");
    distinct(r.child("estimators"), nullptr);
    distinct(r.child("perturbations"), nullptr);
    for (auto c : r.child("estimators").children("current")) distinct(c.child("sensitivities"), nullptr);
  }
  static pugi::xml_node named(const pugi::xml_node& p, const std::string& n) { for (auto c : p.children()) if (c.type() == pugi::node_element && n == c.attribute("name").as_string()) return c; return {}; }
  static double d(const pugi::xml_node& n, const char* a, double dflt = 0) { return n.attribute(a) ? std::atof(trim(n.attribute(a).value()).c_str()) : dflt; }
  void meaning(const pugi::xml_node& r) {
    const auto nodes = [&] { for (auto c : r.child("nuclides").children()) if (c.type() == pugi::node_element) return c; return pugi::xml_node{}; }();
    const bool mg = std::string(nodes.name()) == "multigroup";
    const size_t G = mg ? (size_t)std::atoll(trim(nodes.attribute("groups").value()).c_str()) : 0;
    const auto listed = tokens(text_of(r.child("general").child("particles")));
    { std::set<std::string> s; for (auto n : nodes.children("nuclide")) if (!s.insert(n.attribute("name").value()).second) open_ = true; }
    std::set<std::string> nuclides_used, surfaces_used, materials_used;
    for (auto c : r.child("cells").children()) {
      if (c.type() != pugi::node_element) continue;
      std::set<std::string> twice;
      for (auto s : c.children("surface")) {
        const std::string n = s.attribute("name").value();
        if (!twice.insert(n).second) open_ = true;
        surfaces_used.insert(n);
        if (!named(r.child("surfaces"), n)) reject("a surface that does not exist", {n});
      }
      if (std::string(c.name()) != "cell") continue;
      const std::string mn = c.attribute("material").value();
      const auto m = named(r.child("materials"), mn);
      if (!m) { reject("a material that does not exist", {mn}); continue; }
      materials_used.insert(mn);
      for (auto x : m.children("nuclide")) {
        const std::string nn = x.attribute("name").value();
        if (!named(nodes, nn)) reject("a nuclide that does not exist", {nn});
        nuclides_used.insert(nn);
      }
    }
    for (auto m : r.child("materials").children("material")) if (!materials_used.count(m.attribute("name").value()))
      for (auto x : m.children("nuclide")) if (!named(nodes, x.attribute("name").value())) open_ = true;
    for (auto n : nodes.children("nuclide")) {
      const bool used = nuclides_used.count(n.attribute("name").value());
      for (auto& t : std::set<std::string>(listed.begin(), listed.end())) if (!n.child(t.c_str())) { if (used) reject("no data for a particle", {t}); else open_ = true; }
      for (auto p : n.children()) {
        if (p.type() != pugi::node_element) continue;
        const bool matters = used && std::find(listed.begin(), listed.end(), p.name()) != listed.end();
        auto wrong = [&](const std::string& why, std::vector<std::string> what) { if (matters) reject(why, what); else open_ = true; };
        if (mg) {
          auto size = [&](const pugi::xml_node& t, size_t want) { if (t && tokens(text_of(t)).size() != want) wrong("wrong number of entries", {t.name()}); };
          size(p.child("capture"), G);
          size(p.child("scatter"), G * G);
          size(p.child("fission").child("xs"), G);
          size(p.child("fission").child("nubar"), G);
          size(p.child("fission").child("chi"), G * G);
        } else {
          auto file = [&](const pugi::xml_node& t, const char* a, int dims) {
            if (!t) return;
            const std::string f = t.attribute(a).value();
            if (!std::ifstream(f)) wrong("a file that does not exist", {f});
            else if (!read_(f, dims)) wrong("an unreadable file", {});
          };
          for (auto x : {"total", "capture"}) file(p.child(x), "file", 1);
          file(p.child("scatter").child("xs"), "file", 1);
          file(p.child("fission").child("xs"), "file", 1);
          file(p.child("fission").child("nubar"), "file", 1);
          const auto t = p.child("scatter").child("tsl");
          file(t, "majorant", 1); file(t, "total_E", 2); file(t, "total_T", 2); file(t, "total_S", 1);
          for (auto x : t.child("beta_partitions").children("partition")) { file(x, "CDF", 2); file(x, "S", 1); file(x, "E_T", 3); }
          for (auto x : t.child("alpha_partitions").children("partition")) { file(x, "CDF", 2); file(x, "S", 1); file(x, "beta_T", 3); }
          for (auto [list, a] : {std::pair{"beta_partitions", "E_T"}, std::pair{"alpha_partitions", "beta_T"}}) {
            double last = 0;
            bool sorted = true;
            for (auto x : t.child(list).children("partition")) {
              const std::string f = x.attribute(a).value();
              if (std::ifstream(f) && read_(f, 3)) for (double v : first_(f)) { sorted = sorted && v > last; last = v; }
            }
            if (!sorted) wrong("partitions out of order", {});
          }
        }
      }
    }
    if (const auto l = r.child("temperature").child("linear")) {
      if (text_of(r.child("general").child("tracking")) != "cell delta" && (d(l.child("gradient"), "x") || d(l.child("gradient"), "y") || d(l.child("gradient"), "z"))) reject("surface tracking of a varying temperature", {});
    }
    for (auto p : r.child("perturbations").children("total")) {
      const std::string n = p.attribute("nuclide").value();
      if (!named(nodes, n)) reject("a perturbed nuclide that does not exist", {n});
      else if (!nuclides_used.count(n)) open_ = true;
    }
    for (auto e : r.child("estimators").children("current")) {
      const std::string s = e.attribute("surface").value();
      if (!named(r.child("surfaces"), s)) reject("a tallied surface that does not exist", {s});
      else if (!surfaces_used.count(s)) open_ = true;
      for (auto p : e.child("sensitivities").children("perturbation")) {
        const std::string n = p.attribute("name").value();
        if (!named(r.child("perturbations"), n)) reject("a perturbation that does not exist", {n});
      }
      for (auto axis : e.child("bins").children()) {
        if (axis.type() != pugi::node_element) continue;
        if (std::string(axis.name()) == "cosine") {
          if (d(axis, "u") == 0 && d(axis, "v") == 0 && d(axis, "w") == 0) reject("a direction of no length", {"cosine"});
        }
        for (auto b : axis.children()) {
          const std::string k = b.name();
          if (k == "linspace" || k == "logspace") if (!(d(b, "max") > d(b, "min"))) reject("bounds that do not increase", {k});
          if (k == "logspace") if (!(d(b, "base", 10) > 1)) reject("an unusable base", {k});
          if (k == "boundaries") {
            double last = -HUGE_VAL;
            for (auto& t : tokens(text_of(b))) {
              if (t == "NaN" || t == "INF" || t == "-INF") { reject("boundaries that are no finite numbers", {}); continue; }
              const double v = std::atof(t.c_str());
              if (std::isinf(v)) { reject("boundaries that are no finite numbers", {}); continue; }
              if (!(v > last)) reject("boundaries that do not increase", {k});
              last = v;
            }
          }
        }
      }
    }
    const auto src = r.child("problemtype").child("fixedsource") ? r.child("problemtype").child("fixedsource") : r.child("problemtype").child("keigenvalue").child("initialsource");
    {
      const std::string e = trim(src.child("energy").child("constant").attribute("energy").value());
      if (mg && (e.find_first_not_of("0123456789") != std::string::npos || e.size() > 9 || std::atoll(e.c_str()) > (long long)G)) open_ = true;
    }
    if (!src.child("particletype").child("constant").attribute("type")) reject("no particle type", {});
  }
};
}  // namespace schema
