// Inputs that say the same. From every base document all rewritings of a list that do not change what it says are made, one
// at a time, in pairs, and all at once; the real program code reads and solves each; the results must be the same, exactly.
//  order:      every order of the parts of every section whose parts may come in any order, of definitions, of tallies
//  layout:     comments, processing instructions and white space everywhere, also within lists of numbers; attributes in any
//              order; other quotes, character references, CDATA; encodings, declarations, prefixes
//  numbers:    every number spelt in other ways
//  defaults:   what is left out stated, what is stated and the default left out
//  equivalents: directions of other length, fractions of other sum, a gradient of zero, equidistant boundaries listed
//  names:      other names for everything of a kind
//  additions:  definitions nothing uses; further tallies
#include "vh.hpp"
#include "Driver.hpp"
#include "Estimator.hpp"
#include "H5Cpp.h"
#include "results.hpp"
#include "schema.hpp"
#include "zoo.hpp"
#include <algorithm>
#include <filesystem>
#include <numeric>
using namespace vh;
using Node = pugi::xml_node;
using Nodes = std::vector<Node>;

namespace {
constexpr unsigned kParse = pugi::parse_default;
void each(const Node& n, const std::function<void(Node)>& f) { f(n); for (auto c : n.children()) if (c.type() == pugi::node_element) each(c, f); }
Nodes elements(const pugi::xml_document& d) { Nodes r; each(d.document_element(), [&](Node n) { r.push_back(n); }); return r; }
Nodes children(const Node& n) { Nodes r; for (auto c : n.children()) if (c.type() == pugi::node_element) r.push_back(c); return r; }
std::string where(const Node& n) {
  std::string s;
  for (auto x = n; x && x.type() == pugi::node_element; x = x.parent()) {
    int k = 0;
    for (auto b = x.previous_sibling(x.name()); b; b = b.previous_sibling(x.name())) k++;
    s = "/" + std::string(x.name()) + (k ? fmt("[%d]", k) : "") + s;
  }
  return s;
}
// an edit of the elements, numbered as in the base document, or of the text
using Names = std::map<std::string, std::string>;
struct Edit { std::string what; std::string kind; std::function<void(Nodes&)> doc; std::function<std::string(std::string)> text; Names estimators, perturbations; };

// ---- what may be in any order
bool any_order(const Node& n, bool cells_too) {
  const std::string s = n.name(), up = n.parent().name();
  if (s == "minimc" || s == "general" || s == "fission" || s == "tsl" || s == "linear" || s == "fixedsource" || s == "bins" || s == "current" || s == "sphere") return true;
  if (s == "surfaces" || s == "materials" || s == "perturbations" || s == "estimators" || s == "sensitivities") return true;
  if (s == "scatter" && n.child("xs")) return true;
  if (s == "nuclide" && (up == "multigroup" || up == "continuous")) return true;
  if (s == "cell" || s == "void") return true;       // surfaces of a region
  if (s == "cells") return cells_too;                // regions that do not overlap
  return false;
}
std::vector<std::vector<size_t>> orders(size_t k, bool thorough) {
  std::vector<std::vector<size_t>> r;
  std::vector<size_t> p(k);
  std::iota(p.begin(), p.end(), 0);
  if (k <= (thorough ? 6u : 5u)) { while (std::next_permutation(p.begin(), p.end())) r.push_back(p); return r; }
  // every pair (thorough: triple) of parts first, the others in order or reversed
  for (size_t a = 0; a < k; a++) for (size_t b = 0; b < k; b++) for (size_t c = 0; c < (thorough ? k : 1); c++) {
    if (a == b || (thorough && (c == a || c == b))) continue;
    std::vector<size_t> q{a, b}, rest;
    if (thorough) q.push_back(c);
    for (size_t i = 0; i < k; i++) if (std::find(q.begin(), q.end(), i) == q.end()) rest.push_back(i);
    if ((a + b) % 2) std::reverse(rest.begin(), rest.end());
    q.insert(q.end(), rest.begin(), rest.end());
    if (!std::is_sorted(q.begin(), q.end())) r.push_back(q);
  }
  return r;
}

// ---- numbers
enum Kind { none, integer, real, list };
Kind attribute_kind(const Node& n, const std::string& a, bool multigroup) {
  if (a == "bins" || a == "groups") return integer;
  if (a == "energy") return multigroup ? integer : real;
  for (auto x : {"x", "y", "z", "r", "u", "v", "w", "min", "max", "base", "awr", "afrac", "aden", "temperature", "lower", "upper", "b", "c", "beta_cutoff", "alpha_cutoff"}) if (a == x) return real;
  (void)n;
  return none;
}
Kind text_kind(const Node& n) {
  const std::string s = n.name(), up = n.parent().name();
  if (!*n.child_value()) return none;
  if (s == "histories" || s == "threads" || s == "chunksize" || s == "seed") return integer;
  if (s == "boundaries" || s == "capture" || s == "scatter" || (up == "fission" && (s == "xs" || s == "nubar" || s == "chi"))) return list;
  return none;
}
std::vector<std::string> spelt(const std::string& v, Kind k) {
  std::vector<std::string> r;
  if (k == integer) { r = {"+" + v, "000" + v, " " + v, v + " ", "\n\t" + v + "\n", "+0" + v}; return r; }
  const double d = std::strtod(v.c_str(), nullptr);
  const std::string sign = std::signbit(d) ? "-" : "", a = sign.empty() ? v : v.substr(v.find('-') + 1);
  for (auto f : {"%.17g", "%.17e", "%.20E"}) r.push_back(fmt(f, d));
  if (std::fabs(d) >= 1e-4 || d == 0) { r.push_back(fmt("%.25f", d)); if (d == std::floor(d)) r.push_back(fmt("%.0f.", d)); }
  if (sign.empty()) r.push_back("+" + v);
  r.push_back(sign + "00" + a);
  r.push_back(" " + v + "\n");
  if (d != 0 && std::fabs(d) < 1 && fmt("%.17f", d).rfind(sign + "0.", 0) == 0 && std::fabs(d) > 1e-2) r.push_back(sign + fmt("%.25f", std::fabs(d)).substr(1));
  r.erase(std::remove_if(r.begin(), r.end(), [&](const std::string& x) { return std::strtod(x.c_str(), nullptr) != d; }), r.end());
  return r;
}
void set_text(Node n, const std::string& t, pugi::xml_node_type type = pugi::node_pcdata) { n.remove_children(); n.append_child(type).set_value(t.c_str()); }

std::vector<Edit> edits(const pugi::xml_document& doc, const std::string& text, bool multigroup, bool thorough) {
  std::vector<Edit> r;
  const Nodes es = elements(doc);
  for (size_t i = 0; i < es.size(); i++) {
    const Node n = es[i];
    const std::string at = where(n);
    auto add = [&](const std::string& kind, const std::string& w, std::function<void(Node)> f) { r.push_back({at + " " + w, kind, [i, f](Nodes& e) { f(e[i]); }, {}}); };
    const Nodes ch = children(n);
    // order
    if (any_order(n, true) && ch.size() > 1)
      for (auto& o : orders(ch.size(), thorough)) {
        std::string w = "in the order";
        for (auto x : o) w += fmt(" %zu", x);
        add("order", w, [o](Node x) { const Nodes c = children(x); for (auto k : o) if (k < c.size()) x.append_move(c[k]); });
      }
    // layout
    const bool has_text = text_kind(n) != none || std::string(n.name()) == "particles" || std::string(n.name()) == "tracking";
    if (!has_text) {
      for (size_t k = 0; k <= ch.size(); k++)
        for (int what = 0; what < (ch.empty() ? 2 : 3); what++)
          add("layout", fmt("%s before part %zu", what == 0 ? "a comment" : what == 1 ? "an instruction" : "white space", k), [k, what](Node x) {
            const Nodes c = children(x);
            const auto type = what == 0 ? pugi::node_comment : what == 1 ? pugi::node_pi : pugi::node_pcdata;
            Node z = k < c.size() ? x.insert_child_before(type, c[k]) : x.append_child(type);
            if (what == 0) z.set_value(" <cell name='x' material='y'/> 1 2 3 ");
            if (what == 1) { z.set_name("work"); z.set_value("1 2 3"); }
            if (what == 2) z.set_value("\n \t\n");
          });
    } else if (std::string(n.name()) != "tracking") {
      const auto tk = schema::tokens(n.child_value());
      const bool one = tk.size() == 1;
      for (size_t k = 0; k <= tk.size(); k++)
        add("layout", fmt("a comment before number %zu", k), [tk, k](Node x) {
          std::string a, b;
          for (size_t q = 0; q < tk.size(); q++) (q < k ? a : b) += tk[q] + " ";
          x.remove_children();
          if (!a.empty()) x.append_child(pugi::node_pcdata).set_value(a.c_str());
          x.append_child(pugi::node_comment).set_value(" 7 ");
          if (!b.empty()) x.append_child(pugi::node_pcdata).set_value(b.c_str());
        });
      for (std::string sep : {"\n", "\t", "   ", " \n\n\t "}) { if (one) continue; add("layout", "numbers set apart otherwise", [tk, sep](Node x) { std::string s = sep; for (auto& t : tk) s += t + sep; set_text(x, s); }); }
      if (!one) for (size_t k = 1; k < tk.size(); k++) add("layout", fmt("broken before number %zu", k), [tk, k](Node x) { std::string s; for (size_t q = 0; q < tk.size(); q++) s += (q == 0 ? "" : q == k ? "\n" : " ") + tk[q]; set_text(x, s); });
      add("layout", "as CDATA", [](Node x) { set_text(x, std::string(x.child_value()), pugi::node_cdata); });
    }
    std::vector<std::string> an;
    for (auto a : n.attributes()) an.push_back(a.name());
    if (i && an.size() > 1)
      for (auto& o : orders(an.size(), false)) add("layout", "with its attributes in another order", [an, o](Node x) { for (auto k : o) { const std::string v = x.attribute(an[k].c_str()).value(); x.remove_attribute(an[k].c_str()); x.append_attribute(an[k].c_str()) = v.c_str(); } });
    // numbers
    for (auto& a : an) if (const Kind k = attribute_kind(n, a, multigroup); k != none)
      for (auto& s : spelt(n.attribute(a.c_str()).value(), k)) add("numbers", a + " spelt '" + s + "'", [a, s](Node x) { x.attribute(a.c_str()) = s.c_str(); });
    if (text_kind(n) == integer) for (auto& s : spelt(n.child_value(), integer)) add("numbers", "spelt '" + s + "'", [s](Node x) { set_text(x, s); });
    if (text_kind(n) == list) {
      const auto tk = schema::tokens(n.child_value());
      for (size_t k = 0; k < tk.size(); k++)
        for (auto& s : spelt(tk[k], list)) add("numbers", fmt("number %zu spelt '", k) + s + "'", [tk, k, s](Node x) { std::string t; for (size_t q = 0; q < tk.size(); q++) t += (q == k ? s : tk[q]) + " "; set_text(x, t); });
    }
    // defaults
    const std::string s = n.name();
    if (s == "general") {
      if (std::string(n.child_value("seed")) == "1") add("defaults", "seed left out", [](Node x) { x.remove_child("seed"); });
      if (!n.child("tracking")) add("defaults", "tracking stated", [](Node x) { set_text(x.prepend_child("tracking"), "surface"); });
      if (std::string(n.child_value("tracking")) == "surface") add("defaults", "tracking left out", [](Node x) { x.remove_child("tracking"); });
      for (auto v : {"1", "2", "7", "1000000"}) add("defaults", std::string("chunksize ") + v, [v](Node x) { set_text(x.child("chunksize"), v); });
    }
    if (s == "minimc" && !n.child("temperature"))
      for (auto c : {"293.6", "293.60", "2.936e2"}) add("defaults", "temperature stated", [c](Node x) { x.append_child("temperature").append_child("constant").append_attribute("c") = c; });
    if (s == "minimc" && !n.child("estimators")) {}
    if (s == "logspace" && !n.attribute("base")) add("defaults", "base stated", [](Node x) { x.prepend_attribute("base") = "10"; });
    if (s == "logspace" && std::string(n.attribute("base").value()) == "10") add("defaults", "base left out", [](Node x) { x.remove_attribute("base"); });
    if (s == "current" && !n.child("bins")) for (int k = 0; k < 2; k++) add("defaults", "bins without content", [k](Node x) { k ? x.prepend_child("bins") : x.append_child("bins"); });
    if (s == "cell" && !n.attribute("temperature"))
      if (const auto c = n.root().child("minimc").child("temperature").child("constant")) { const std::string v = c.attribute("c").value(); add("defaults", "temperature stated", [v](Node x) { x.append_attribute("temperature") = v.c_str(); }); }
    // the same described otherwise
    auto scaled = [](Node x, std::vector<const char*> as, double by) { for (auto a : as) if (x.attribute(a)) x.attribute(a) = fmt("%.17g", x.attribute(a).as_double() * by).c_str(); };
    for (double by : {2.0, 0.25, 1024.0, 0x1p-30}) {
      if (s == "cosine") add("equivalents", fmt("of %g times the length", by), [=](Node x) { scaled(x, {"u", "v", "w"}, by); });
      if (s == "direction") for (auto what : {"constant", "isotropic-flux"}) if (n.child(what)) add("equivalents", fmt("of %g times the length", by), [=](Node x) { scaled(x.child(what), {"x", "y", "z", "u", "v", "w"}, by); });
      if (s == "material") add("equivalents", fmt("of %g times the fractions", by), [=](Node x) { for (auto c : x.children("nuclide")) scaled(c, {"afrac"}, by); });
    }
    if (s == "temperature" && n.child("constant"))
      for (int sign = 0; sign < 2; sign++) add("equivalents", "of a gradient of zero", [sign](Node x) {
        const std::string c = x.child("constant").attribute("c").value();
        x.remove_children();
        auto l = x.append_child("linear");
        for (auto a : {"x", "y", "z"}) (l.child("gradient") ? l.child("gradient") : l.append_child("gradient")).append_attribute(a) = sign ? "-0" : "0";
        l.append_child("intercept").append_attribute("b") = c.c_str();
        auto b = l.append_child("bounds");
        b.append_attribute("lower") = c.c_str();
        b.append_attribute("upper") = c.c_str();
      });
    if (s == "linspace") add("equivalents", "as a list", [](Node x) {
      const double lo = x.attribute("min").as_double(), hi = x.attribute("max").as_double();
      const int k = x.attribute("bins").as_int();
      std::string t;
      for (int q = 0; q <= k; q++) t += fmt("%.17g ", lo + (hi - lo) * q / k);
      while (x.first_attribute()) x.remove_attribute(x.first_attribute());
      x.set_name("boundaries");
      set_text(x, t);
    });
    // additions
    for (int end = 0; end < 2; end++) {
      auto put = [end](Node x, const char* name) { return end ? x.append_child(name) : x.prepend_child(name); };
      const std::string side = end ? "last" : "first";
      for (const char* nm : {"0", "zz", "a", "m", "\xc3\xa4"}) {
        const std::string name = nm;
        if (n.find_child_by_attribute("name", nm)) continue;
        if (s == "surfaces") {
          add("additions", "with a plane " + name + " more, " + side, [=](Node x) { auto z = put(x, "planex"); z.append_attribute("name") = nm; z.append_attribute("x") = "0.5"; });
          add("additions", "with a ball " + name + " more, " + side, [=](Node x) { auto z = put(x, "sphere"); z.append_attribute("name") = nm; auto c = z.append_child("center"); for (auto q : {"x", "y", "z"}) c.append_attribute(q) = "0.1"; z.append_child("radius").append_attribute("r") = "0.7"; });
        }
        if (s == "materials") for (int copy = 0; copy < 2; copy++) add("additions", (copy ? "with a copy " : "with a material ") + name + " more, " + side, [=](Node x) {
          if (copy) { auto from = children(x)[0]; auto z = end ? x.append_copy(from) : x.prepend_copy(from); z.attribute("name") = nm; z.attribute("aden") = "123"; return; }
          auto z = put(x, "material"); z.append_attribute("name") = nm; z.append_attribute("aden") = "3.5"; auto q = z.append_child("nuclide"); q.append_attribute("name") = children(children(x.root().child("minimc").child("nuclides"))[0])[0].attribute("name").value(); q.append_attribute("afrac") = "0.5"; });
        if (s == "multigroup" || s == "continuous") for (size_t from = 0; from < ch.size(); from++) add("additions", fmt("with a copy of nuclide %zu as ", from) + name + " more, " + side, [=](Node x) { auto c = children(x)[from]; auto z = end ? x.append_copy(c) : x.prepend_copy(c); z.attribute("name") = nm; });
        if (s == "perturbations") for (auto& m : children(n.root().child("minimc").child("nuclides").first_child())) { const std::string of = m.attribute("name").value(); add("additions", "with a perturbation " + name + " of " + of + " more, " + side, [=](Node x) { auto z = put(x, "total"); z.append_attribute("name") = nm; z.append_attribute("nuclide") = of.c_str(); }); }
        if (s == "estimators") for (auto& m : children(n.root().child("minimc").child("surfaces"))) { const std::string of = m.attribute("name").value(); for (int b = 0; b < 3; b++) add("additions", "with a tally " + name + " on " + of + " more, " + side, [=](Node x) {
          auto z = put(x, "current"); z.append_attribute("name") = nm; z.append_attribute("surface") = of.c_str();
          if (b) { auto c = z.append_child("bins").append_child("cosine"); for (auto q : {"u", "v", "w"}) c.append_attribute(q) = "1"; set_text(c.append_child("boundaries"), "0 0.5"); }
          if (b == 2 && x.root().child("minimc").child("perturbations")) z.append_child("sensitivities").append_child("perturbation").append_attribute("name") = children(x.root().child("minimc").child("perturbations"))[0].attribute("name").value(); }); }
      }
    }
  }
  // the text as a whole
  auto addt = [&](const std::string& w, std::function<std::string(std::string)> f) { r.push_back({w, "layout", {}, f}); };
  const std::string schema_place = "xsi:noNamespaceSchemaLocation";
  size_t na = 0;
  for (size_t k = text.find("=\""); k != text.npos; k = text.find("=\"", text.find('"', k + 2) + 1)) na++;
  for (size_t a = 1; a < na; a++)
    for (int how = 0; how < 4; how++) {
      if (how == 3 && a % 4) continue;
      addt(fmt("attribute %zu of the text %s", a, how == 0 ? "in other quotes" : how == 1 ? "with a reference" : how == 2 ? "all in references" : "set apart"), [a, how](std::string t) {
        size_t k = t.find("=\"");
        for (size_t q = 0; q < a && k != t.npos; q++) k = t.find("=\"", t.find('"', k + 2) + 1);
        if (k == t.npos) return t;
        const size_t b = k + 2, e = t.find('"', b);
        const std::string v = t.substr(b, e - b);
        if (how == 0) { if (v.find('\'') == v.npos) { t[b - 1] = '\''; t[e] = '\''; } return t; }
        if (how == 3) return t.replace(k, 1, " =\n ");
        std::string o;
        for (size_t q = 0; q < v.size(); q++) { const unsigned char c = v[q]; if (c < 0x80 && c != '&' && v.find('&') == v.npos && (how == 2 || q == 0)) o += fmt(q % 2 ? "&#%d;" : "&#x%x;", c); else o += v[q]; }
        return t.replace(b, v.size(), o);
      });
    }
  // applied last
  auto adde = [&](const std::string& w, std::function<std::string(std::string)> f) { r.push_back({w, "encoding", {}, f}); };
  auto within = [](const std::string& o) { const size_t k = o.rfind('<'); return k != o.npos && o[k + 1] != '!' && o[k + 1] != '?' && (o[k + 1] == '/' || o[o.size() - 2] == '/'); };  // within an element of elements
  adde("byte order mark", [](std::string t) { return "\xef\xbb\xbf" + t; });
  adde("declaration", [](std::string t) { return "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" + t; });
  adde("declaration, standalone", [](std::string t) { return "<?xml version='1.0' encoding='utf-8' standalone='yes'?>" + t; });
  for (int big = 0; big < 2; big++) adde(big ? "UTF-16, big end first" : "UTF-16, little end first", [big](std::string t) {
    std::string o;
    auto unit = [&](unsigned u) { o += (char)(big ? u >> 8 : u & 255); o += (char)(big ? u & 255 : u >> 8); };
    unit(0xfeff);
    for (size_t k = 0; k < t.size();) { unsigned c = (unsigned char)t[k++]; if (c >= 0xc0) c = (c & 31) << 6 | ((unsigned char)t[k++] & 63); unit(c); }
    return o; });
  adde("comments around", [](std::string t) { return "<!-- first --><!-- <minimc/> -->\n" + t + "\n<!-- last -->\n"; });
  adde("line ends of another system", [within](std::string t) { std::string o; for (char c : t) { o += c; if (c == '>' && within(o)) o += "\r\n"; } return o; });
  adde("old line ends", [within](std::string t) { std::string o; for (char c : t) { o += c; if (c == '>' && within(o)) o += "\r"; } return o; });
  adde("another prefix", [](std::string t) { for (size_t k; (k = t.find("xsi:")) != t.npos;) t.replace(k, 4, "sch:"); for (size_t k; (k = t.find("xmlns:xsi")) != t.npos;) t.replace(k, 9, "xmlns:sch"); return t; });
  return r;
}
// other names for everything of a kind; nuclides keep their order by name
struct Place { const char *parent, *node, *attribute; };
const std::vector<std::pair<std::string, std::vector<Place>>> kNames = {
    {"nuclides", {{"multigroup", "nuclide", "name"}, {"continuous", "nuclide", "name"}, {"material", "nuclide", "name"}, {"perturbations", "", "nuclide"}}},
    {"surfaces", {{"surfaces", "", "name"}, {"cell", "surface", "name"}, {"void", "surface", "name"}, {"estimators", "", "surface"}}},
    {"materials", {{"materials", "", "name"}, {"cells", "cell", "material"}}},
    {"cells", {{"cells", "cell", "name"}}},
    {"perturbations", {{"perturbations", "", "name"}, {"sensitivities", "perturbation", "name"}}},
    {"estimators", {{"estimators", "", "name"}}}};
void renamings(const pugi::xml_document& doc, std::vector<Edit>& r) {
  auto visit = [](Node root, const std::vector<Place>& places, const std::function<void(pugi::xml_attribute)>& f) {
    each(root, [&](Node n) { for (auto& p : places) if (std::string(n.parent().name()) == p.parent && (!*p.node || std::string(n.name()) == p.node)) if (auto a = n.attribute(p.attribute)) f(a); });
  };
  std::vector<std::set<std::string>> old(kNames.size());
  for (size_t k = 0; k < kNames.size(); k++) visit(doc.document_element(), {kNames[k].second[0], kNames[k].second.size() > 1 ? kNames[k].second[1] : kNames[k].second[0]}, [&](pugi::xml_attribute a) { if (kNames[k].first != "materials" || std::string(a.name()) == "name") old[k].insert(a.value()); });
  // in rising order
  std::vector<std::pair<std::string, std::function<std::string(size_t, size_t)>>> schemes = {
      {"each the beginning of the next", [](size_t i, size_t) { return std::string(i + 1, 'q'); }},
      {"each the end of the next", [](size_t i, size_t n) { return std::string(n - 1 - i, 'A') + "B"; }},
      {"upper and lower case", [](size_t i, size_t) { return std::string(i < 3 ? 3 - i : 0, 'Q') + std::string(i, 'q'); }},
      {"figures", [](size_t i, size_t) { return "1" + std::string(i, '0'); }},
      {"signs", [](size_t i, size_t) { return "+-.<&>'" + std::string(i, ';'); }},
      {"words", [](size_t i, size_t) { return "the one" + std::string(i, ' ') + "there"; }},
      {"words in order", [](size_t i, size_t) { return "name" + std::string(i / 2, ' ') + (i % 2 ? "_" : "!") + "x"; }},
      {"long", [](size_t i, size_t) { return std::string(300, 'w') + fmt("%03zu", i); }},
      {"letters", [](size_t i, size_t) { return "\xc5" + std::string(1, (char)(0xa0 + i)); }}};
  for (auto& [sn, f] : schemes) for (int down = 0; down < 2; down++) for (size_t which = 0; which <= kNames.size(); which++) {
    Edit e;
    e.kind = "names";
    std::vector<Names> maps(kNames.size());
    bool any = false;
    for (size_t k = 0; k < kNames.size(); k++) {
      if (which < kNames.size() && k != which) continue;
      std::vector<std::string> to;
      for (size_t i = 0; i < old[k].size(); i++) to.push_back(f(i, old[k].size()));
      std::sort(to.begin(), to.end());
      if (down && kNames[k].first != "nuclides") std::reverse(to.begin(), to.end());
      size_t i = 0;
      for (auto& o : old[k]) { maps[k][o] = to[i++]; any = true; }
    }
    if (!any) continue;
    e.what = std::string("names: ") + (which < kNames.size() ? kNames[which].first : "all") + ": " + sn + (down ? ", reversed" : "");
    e.doc = [visit, maps](Nodes& es) { for (size_t k = 0; k < maps.size(); k++) visit(es[0], kNames[k].second, [&](pugi::xml_attribute a) { const auto it = maps[k].find(a.value()); if (it != maps[k].end()) { const std::string v = it->second; a = v.c_str(); } }); };
    e.estimators = maps[5];
    e.perturbations = maps[4];
    r.push_back(e);
  }
}
std::string save(const pugi::xml_document& d) { std::stringstream s; d.save(s, "", pugi::format_raw | pugi::format_no_declaration); return s.str(); }
struct Outcome { std::string error; std::map<std::string, std::pair<std::string, std::vector<double>>> blocks; double sum = 0; };
Outcome solve(const std::string& path) {
  Outcome o;
  try {
    auto d = Driver::Create(path);
    const EstimatorSet s = d->Solve();
    for (auto& b : results::parse(s.to_string())) {
      std::vector<double> v;
      for (double x : b.mean) { v.push_back(x); o.sum += std::fabs(x); }
      v.insert(v.end(), b.dev.begin(), b.dev.end());
      if (b.name.find("::") == std::string::npos) { const auto& e = s.FindEstimatorByName(b.name); for (size_t i = 0; i < b.mean.size(); i++) v.push_back(e.GetScore(i, 1)); }
      o.blocks[b.name] = {b.bins, v};
    }
  } catch (const std::exception& e) { o.error = e.what(); if (o.error.empty()) o.error = "error"; }
  catch (const H5::Exception& e) { o.error = "HDF5: " + e.getDetailMsg(); }
  return o;
}
std::string compare(const Outcome& got, const Outcome& want, const Names& es, const Names& ps) {
  if (!got.error.empty()) return "rejected: " + got.error.substr(0, 300);
  for (auto& [was, b] : want.blocks) {
    const size_t at = was.find("::");
    auto to = [](const Names& m, const std::string& x) { const auto it = m.find(x); return it == m.end() ? x : it->second; };
    const std::string n = at == was.npos ? to(es, was) : to(es, was.substr(0, at)) + "::" + to(ps, was.substr(at + 2));
    const auto it = got.blocks.find(n);
    if (it == got.blocks.end()) return n + " is not reported";
    if (it->second.first != b.first) return n + " has other bins: " + it->second.first + " instead of " + b.first;
    if (it->second.second.size() != b.second.size()) return n + fmt(" has %zu numbers instead of %zu", it->second.second.size(), b.second.size());
    for (size_t i = 0; i < b.second.size(); i++) {
      const double x = it->second.second[i], y = b.second[i];
      // sums of the same terms in another order
      if (!(std::fabs(x - y) <= 1e-9 * std::fabs(y) + 1e-12)) return n + fmt(": number %zu is %.17g instead of %.17g", i, x, y);
    }
  }
  return "";
}
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  H5::Exception::dontPrint();
  run.declare({"states", "transitions", "traces_validated_against_impl", "documents", "orders", "layouts", "numbers", "defaults", "equivalents", "names", "additions", "pairs", "composites"});
  const std::string dir = run.scratch;
  for (auto n : {"minimc.xsd", "minimc_basictypes.xsd"}) std::filesystem::copy_file(mini::repo() + "/test/" + n, dir + "/" + n, std::filesystem::copy_options::overwrite_existing);

  struct Base { std::string name, text; bool multigroup; };
  std::vector<Base> bases;
  for (auto& e : zoo::all(dir)) { auto p = e.p; p.histories = p.nuclides_text.empty() ? 60 : 25; bases.push_back({e.name, ref::xml(p), p.nuclides_text.empty()}); }
  {
    // both particle types, every kind of bins
    ref::Problem p = prob::can(0.8, {0.3, 0.1, 0.2}, 1.9, -1.7, 2.1, "m0", "m1");
    p.G = 3;
    prob::Reacts x, y, ph;
    x.capture = {1, 0.5, 0.25}; x.scatter = {0.5, 0, 0.1, 0.5, 0.25, 0.2, 0, 0.3, 0.4}; x.fxs = {0.25, 1, 0.125}; x.nubar = {2.5, 2.25, 1.5}; x.chi = {1, 0.5, 0, 0, 0.5, 0.5, 0, 0, 0.5};
    y.capture = {0, 1, 0.3}; y.scatter = {1, 0, 0, 2, 3, 1, 0.5, 0.25, 1.5};
    ph.capture = {0.125, 0.5, 0.25}; ph.scatter = {0.5, 0.25, 0.75, 0.5, 0.5, 0.25, 0.125, 0.25, 0.5};
    p.nuclides = {prob::nuclide("a1", x), prob::nuclide("b1", y)};
    for (auto& n : p.nuclides) n.by["photon"] = ph;
    p.materials = {{"m0", 0.5, {{"a1", 0.25}, {"b1", 0.75}}}, {"m1", 0.25, {{"b1", 1}}}};
    p.particles = "neutron photon";
    p.pos = {0.3, 0.1, 0.2}; p.dirkind = "isotropic-flux"; p.dir = {0.5, -1, 0.25}; p.histories = 60;
    const std::string sens = "<sensitivities><perturbation name=\"da\"/><perturbation name=\"db\"/></sensitivities>", sf0 = p.surfaces[0].name, sf1 = p.surfaces.back().name;
    const std::string tallies =
        "<estimators><current name=\"lin\" surface=\"" + sf0 + "\"><bins><energy><linspace min=\"0.5\" max=\"3.5\" bins=\"3\"/></energy><cosine u=\"0\" v=\"1\" w=\"0.5\"><boundaries>-0.5 0 0.75</boundaries></cosine></bins>" + sens + "</current>"
        "<current name=\"log\" surface=\"" + sf1 + "\"><bins><energy><logspace min=\"-1\" max=\"1\" bins=\"4\"/></energy><cosine u=\"1\" v=\"0.25\" w=\"-0.5\"><linspace min=\"-1\" max=\"1\" bins=\"5\"/></cosine></bins></current>"
        "<current name=\"log2\" surface=\"" + sf0 + "\"><bins><energy><logspace min=\"-1\" max=\"2\" bins=\"6\" base=\"2\"/></energy></bins>" + sens + "</current>"
        "<current name=\"none\" surface=\"" + sf0 + "\"/></estimators><perturbations><total name=\"da\" nuclide=\"a1\"/><total name=\"db\" nuclide=\"b1\"/></perturbations></minimc>";
    for (int photon = 0; photon < 2; photon++) {
      p.type = photon ? "photon" : "neutron";
      p.group = photon ? 3 : 2;
      p.tracking = photon ? "surface" : "cell delta";
      p.seed = photon ? 1 : 77;
      p.temperature_text = photon ? "<temperature><constant c=\"400\"/></temperature>" : "";
      std::string t = ref::xml(p);
      t.replace(t.find("</minimc>"), 9, tallies);
      bases.push_back({photon ? "photons" : "neutrons of three groups", t, true});
    }
  }

  // serial numbers keep the file names of a worker apart
  auto attempt = [&](const std::string& text) {
    const std::string path = dir + fmt("/doc-%d.xml", (int)getpid());
    mini::spit(path, text);
    const Outcome o = solve(path);
    unlink(path.c_str());
    run.count("documents");
    run.count("transitions");
    run.count("traces_validated_against_impl");
    run.distinct("states", hash(text));
    return o;
  };
  for (size_t bi = 0; bi < bases.size(); bi++) {
    const Base& base = bases[bi];
    pugi::xml_document doc;
    if (!doc.load_string(base.text.c_str(), kParse)) { fprintf(stderr, "base %s\n", base.name.c_str()); return 97; }
    const std::string plain = save(doc);
    auto es = edits(doc, plain, base.multigroup, run.thorough);
    renamings(doc, es);
    // what counts parts before what adds some, what spells numbers before what changes them
    auto rank = [](const Edit* e) { return e->text ? 4 : e->kind == "names" ? 3 : e->kind == "additions" ? 2 : e->kind == "equivalents" ? 1 : 0; };
    auto in_order = [rank](std::vector<const Edit*>& l) { std::stable_sort(l.begin(), l.end(), [rank](const Edit* a, const Edit* b) { return rank(a) < rank(b); }); };
    auto with = [&, plain](std::vector<const Edit*> list) {
      in_order(list);
      pugi::xml_document d;
      d.load_string(plain.c_str(), kParse);
      Nodes n = elements(d);
      for (auto e : list) if (e->doc) e->doc(n);
      std::string t = save(d);
      for (auto e : list) if (e->text) t = e->text(t);
      return t;
    };
    auto judge = [&, with](const std::vector<const Edit*>& list, const Outcome& want) {
      Names en, pn;
      for (auto e : list) if (e->kind == "names") { en = e->estimators; pn = e->perturbations; }
      const std::string t = with(list), bad = compare(attempt(t), want, en, pn);
      if (bad.empty()) return true;
      std::string what;
      for (auto e : list) what += (what.empty() ? "" : "; ") + e->what;
      run.violation(base.name + ": " + what.substr(0, 600), bad + "\n" + t.substr(0, 3000));
      return false;
    };
    auto undisturbed = [&, plain]() {
      const Outcome want = attempt(plain);
      if (!want.error.empty()) run.violation(base.name, "rejected: " + want.error);
      if (want.sum == 0) { fprintf(stderr, "%s: nothing is scored\n", base.name.c_str()); _exit(97); }
      return want;
    };
    // what remains the same: estimators may only be told apart by their names, so blocks are compared by name
    const size_t chunk = 40;
    run.cases("one, " + base.name, (es.size() + chunk - 1) / chunk, [&](size_t i) {
      const Outcome want = undisturbed();
      for (size_t k = i * chunk; k < std::min(es.size(), (i + 1) * chunk); k++) {
        run.count(es[k].kind == "order" ? "orders" : es[k].kind == "layout" || es[k].kind == "encoding" ? "layouts" : es[k].kind.c_str());
        judge({&es[k]}, want);
        if (k % 499 == 3) run.sample(base.name + ": " + es[k].what);
        if (run.failed_case()) return;
      }
    }, [&](size_t i) { return base.name + ": " + es[i * chunk].what + " and following"; });

    // ---- pairs: of different kinds, at all distances
    std::vector<std::pair<size_t, size_t>> pairs;
    const size_t m = run.thorough ? 20000 : 700, n = es.size();
    const size_t step = std::max<size_t>(1, n * n / 2 / m);
    for (size_t a = 0, c = 0; a < n; a++) for (size_t b = a + 1; b < n; b++) if ((c++ * 7919 + a) % step == 0 && es[a].kind != es[b].kind) pairs.push_back({a, b});
    run.cases("two, " + base.name, (pairs.size() + chunk - 1) / chunk, [&](size_t i) {
      const Outcome want = undisturbed();
      for (size_t k = i * chunk; k < std::min(pairs.size(), (i + 1) * chunk); k++) {
        // an edit of numbers of a list replaces its text, so the layout of the same list would be lost; all else adds up
        run.count("pairs");
        judge({&es[pairs[k].second], &es[pairs[k].first]}, want);
        if (run.failed_case()) return;
      }
    }, [&](size_t i) { return base.name + fmt(": pairs from %zu", i * chunk); });

    // ---- all at once: one edit of every kind at every place
    const size_t rounds = run.thorough ? 400 : 60;
    run.cases("many, " + base.name, rounds / 20, [&](size_t i) {
      const Outcome want = undisturbed();
      for (size_t q = i * 20; q < (i + 1) * 20; q++) {
        std::vector<const Edit*> list, tail;
        std::string last;
        size_t at = 0;
        for (size_t k = 0; k < n;) {
          // edits of one place and kind follow one another; one of them is taken
          auto id = [](const Edit& e) { return e.kind == "encoding" || e.kind == "names" ? e.kind : e.text ? e.what.substr(0, e.what.find(' ', 10)) : e.what.substr(0, e.what.find(' ')) + e.kind; };
          const std::string group = id(es[k]);
          size_t e = k;
          while (e < n && id(es[e]) == group) e++;
          if (es[k].text) { if (q % 3 == 0 || es[k].kind == "encoding") list.push_back(&es[k + (q * 13 + at) % (e - k)]); }
          else if (es[k].kind == "additions") { for (size_t z = 0; z < 1; z++) list.push_back(&es[k + (q * 31 + at * 7) % (e - k)]); }
          else if (!(es[k].kind == "defaults" && (q + at) % 2)) list.push_back(&es[k + (q * 17 + at * 5) % (e - k)]);
          at++;
          k = e;
        }
        run.count("composites");
        judge(list, want);
        if (run.failed_case()) return;
      }
    }, [&](size_t i) { return base.name + fmt(": all at once from %zu", i * 20); });
  }
  return run.finish();
}
