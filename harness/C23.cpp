// Input documents with every single fault, pairs of faults, every subset of the optional parts, every truncation, and one
// document after another. An explicit
// model of the schema and of the rules between the parts of a document says which must be accepted and which rejected.
#include "vh.hpp"
#include "Driver.hpp"
#include "Estimator.hpp"
#include "H5Cpp.h"
#include "schema.hpp"
#include "zoo.hpp"
#include <algorithm>
#include <cxxabi.h>
#include <filesystem>
using namespace vh;
using schema::Verdict;

namespace {
struct Result { bool accepted; bool standard; std::string message; };
Result create(const std::string& path) {
  try {
    auto d = Driver::Create(path);
    if (!d) return {true, true, "no driver"};
    return {true, true, ""};
  } catch (const std::exception& e) { return {false, true, e.what()}; }
  catch (const H5::Exception& e) { return {false, false, e.getDetailMsg()}; }
  catch (...) { return {false, false, "unknown exception"}; }
}
std::string save(const pugi::xml_document& d) { std::stringstream s; d.save(s, "", pugi::format_raw | pugi::format_no_declaration); return s.str(); }
std::string where(const pugi::xml_node& n) {
  std::string s;
  for (auto x = n; x && x.type() == pugi::node_element; x = x.parent()) {
    int k = 0;
    for (auto b = x.previous_sibling(x.name()); b; b = b.previous_sibling(x.name())) k++;
    s = "/" + std::string(x.name()) + (k ? fmt("[%d]", k) : "") + s;
  }
  return s;
}
void each(const pugi::xml_node& n, const std::function<void(pugi::xml_node)>& f) { f(n); for (auto c : n.children()) if (c.type() == pugi::node_element) each(c, f); }
std::vector<pugi::xml_node> elements(const pugi::xml_document& d) { std::vector<pugi::xml_node> r; each(d.document_element(), [&](pugi::xml_node n) { r.push_back(n); }); return r; }
void set_text(pugi::xml_node n, const std::string& t) { n.remove_children(); if (!t.empty()) n.append_child(pugi::node_pcdata).set_value(t.c_str()); }

struct Fault { std::string what; std::function<void(pugi::xml_document&)> apply; bool sense; };  // sense: breaks a rule rather than the schema
// faults refer to elements by number in document order
std::vector<Fault> faults_of(const pugi::xml_document& doc, const std::vector<std::string>& other_files) {
  std::vector<Fault> r;
  const auto es = elements(doc);
  for (size_t i = 0; i < es.size(); i++) {
    const auto n = es[i];
    const std::string at = where(n);
    auto add = [&](const std::string& w, std::function<void(pugi::xml_node)> f, bool sense = false) {
      r.push_back({at + " " + w, [i, f](pugi::xml_document& d) { const auto e = elements(d); if (i < e.size()) f(e[i]); }, sense});
    };
    bool text = false, child = false;
    for (auto c : n.children()) { text = text || c.type() == pugi::node_pcdata; child = child || c.type() == pugi::node_element; }
    if (i) {
      add("removed", [](pugi::xml_node x) { x.parent().remove_child(x); });
      add("repeated", [](pugi::xml_node x) { x.parent().insert_copy_after(x, x); });
      add("moved to the end", [](pugi::xml_node x) { x.parent().append_move(x); });
      add("moved to the front", [](pugi::xml_node x) { x.parent().prepend_move(x); });
    }
    for (auto nm : {"thing", "cell", "nuclide", "current", "void", "photon", "linear", "total"}) if (std::string(nm) != n.name()) add(std::string("renamed ") + nm, [nm](pugi::xml_node x) { x.set_name(nm); });
    add("with an unknown attribute", [](pugi::xml_node x) { x.append_attribute("colour") = "red"; });
    add("with an unknown child", [](pugi::xml_node x) { x.append_child("thing"); });
    add("with a comment first", [](pugi::xml_node x) { x.prepend_child(pugi::node_comment).set_value(" comment "); });
    add("with a comment last", [](pugi::xml_node x) { x.append_child(pugi::node_comment).set_value(" comment "); });
    if (!text) add("with text", [](pugi::xml_node x) { x.append_child(pugi::node_pcdata).set_value("text"); });
    if (child) add("emptied", [](pugi::xml_node x) { x.remove_children(); });
    for (auto a : n.attributes()) {
      const std::string an = a.name(), v = a.value();
      if (an.rfind("xmlns", 0) == 0) continue;
      add("without " + an, [an](pugi::xml_node x) { x.remove_attribute(an.c_str()); });
      add(an + " renamed", [an](pugi::xml_node x) { x.attribute(an.c_str()).set_name("thing"); });
      std::vector<std::string> vals{"", "x", "-1", "0", "1", "1e3", "1.5", "INF", "-INF", "NaN", " 2 ", "+3", "99999999999999999999", "-99999999999", "99999999999", "1e999", "1,5", "0x10", "2 3"};
      if (an == "file" || an == "majorant" || an.find("_") == an.npos ? false : true) {}
      for (auto& f : other_files) if (v.find(".hdf5") != v.npos) vals.push_back(f);
      if (an == "name" || an == "material" || an == "surface" || an == "nuclide") {
        vals = {"", "nobody", v + " ", v + "x"};
        // any other name of the document
        std::set<std::string> all;
        for (auto e : es) if (e.attribute("name")) all.insert(e.attribute("name").value());
        for (auto& o : all) if (o != v) vals.push_back(o);
      }
      if (an == "xsi:noNamespaceSchemaLocation") vals = {"nobody.xsd", ""};
      if (an == "sense") vals = {"1", "+1", "-1", "0", "", "--1", "+ 1"};
      if (an == "type") vals = {"photon", "electron", "", "Neutron"};
      for (auto& x : vals) {
        if (x == v) continue;
        const bool sense = (an == "name" || an == "material" || an == "surface" || an == "nuclide") ? x == "nobody" : an == "max" || an == "min" || an == "base" ? x == "-99999999999" || x == "99999999999" : v.find(".hdf5") != v.npos;
        add(an + "='" + x.substr(x.rfind('/') == x.npos ? 0 : x.rfind('/')) + "'", [an, x](pugi::xml_node e) { e.attribute(an.c_str()) = x.c_str(); }, sense);
      }
    }
    if (text) {
      const std::string t = n.child_value();
      const auto tk = schema::tokens(t);
      auto join = [](const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += (s.empty() ? "" : " ") + x; return s; };
      std::vector<std::pair<std::string, bool>> vals{{"", false}, {"x", false}, {"0", false}, {"-1", false}, {"1.5", false}, {"+2", false}, {" 3 ", false}, {"007", false}, {"99999999999999999999", false}, {t + " " + tk.back(), true}, {t + " x", false}, {t + " -1", false}, {t + " NaN", true}, {"INF " + t, true}, {t + " 1e3", true}, {"neutron", false}, {"photon", true}, {"neutron photon", true}, {"photon neutron", false}, {"neutron neutron", false}, {"surface", false}, {"cell delta", false}, {"delta", false}};
      if (tk.size() > 1) {
        auto less = tk; less.pop_back(); vals.push_back({join(less), true});
        auto back = tk; std::reverse(back.begin(), back.end()); vals.push_back({join(back), true});
        auto twice = tk; twice.insert(twice.end(), tk.begin(), tk.end()); vals.push_back({join(twice), true});
        auto same = tk; same[1] = same[0]; vals.push_back({join(same), true});
        auto comma = tk; comma[0] += ","; vals.push_back({join(comma), false});
      }
      for (auto& [x, sense] : vals) if (x != t) { const std::string y = x; add("text '" + (x.size() > 40 ? x.substr(0, 40) + "..." : x) + "'", [y](pugi::xml_node e) { set_text(e, y); }, sense && (tk.size() > 1 || std::string(n.name()) == "boundaries" || std::string(n.name()) == "particles" || std::string(n.parent().name()) == "neutron" || std::string(n.parent().name()) == "fission")); }
      if (tk.size() > 1) add("with a comment in its text", [tk](pugi::xml_node e) {
        e.remove_children();
        e.append_child(pugi::node_pcdata).set_value((tk[0] + " ").c_str());
        e.append_child(pugi::node_comment).set_value(" comment ");
        std::string rest; for (size_t k = 1; k < tk.size(); k++) rest += " " + tk[k];
        e.append_child(pugi::node_pcdata).set_value(rest.c_str());
      });
    }
  }
  return r;
}
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  H5::Exception::dontPrint();
  run.declare({"states", "transitions", "traces_validated_against_impl", "documents", "accepted", "rejected", "either", "messages_checked"});
  const std::string dir = run.scratch;
  for (auto n : {"minimc.xsd", "minimc_basictypes.xsd"}) std::filesystem::copy_file(mini::repo() + "/test/" + n, dir + "/" + n, std::filesystem::copy_options::overwrite_existing);

  // ---- base documents
  std::vector<std::pair<std::string, std::string>> bases;
  const std::string bins =
      "<current name=\"lin\" surface=\"ball\"><bins><energy><linspace min=\"0\" max=\"3\" bins=\"3\"/></energy><cosine u=\"0\" v=\"1\" w=\"0.5\"><boundaries>-0.5 0 0.75</boundaries></cosine></bins></current>"
      "<current name=\"log\" surface=\"left\"><bins><energy><logspace min=\"-2\" max=\"1\" bins=\"2\" base=\"2\"/></energy></bins><sensitivities><perturbation name=\"da\"/><perturbation name=\"db\"/></sensitivities></current>"
      "<current name=\"none\" surface=\"pipe\"/>";
  auto put = [](std::string t, const std::string& a, const std::string& b) { const size_t k = t.find(a); if (k == t.npos) { fprintf(stderr, "no %s\n", a.c_str()); _exit(97); } t.replace(k, a.size(), b); return t; };
  {
    ref::Problem p = prob::can(0.8, {0.3, 0.1, 0.2}, 1.9, -1.7, 2.1, "m0", "m1");
    p.G = 2;
    prob::Reacts x, y, ph;
    x.capture = {1, 0.5}; x.scatter = {0.5, 0, 0.5, 0.25}; x.fxs = {0.25, 1}; x.nubar = {2.5, 2.25}; x.chi = {1, 0.5, 0, 0.5};
    y.capture = {0, 1}; y.scatter = {1, 0, 2, 3};
    ph.capture = {0.125, 4};
    p.nuclides = {prob::nuclide("a", x), prob::nuclide("b", y), prob::nuclide("spare", y)};
    for (auto& n : p.nuclides) n.by["photon"] = ph;
    p.materials = {{"m0", 0.5, {{"a", 0.25}, {"b", 0.75}}}, {"m1", 0.25, {{"b", 1}}}};
    p.particles = "neutron photon";
    p.cells[0].temperature = "350";
    p.temperature_text = "<temperature><constant c=\"400\"/></temperature>";
    p.tracking = "surface";
    std::string t = ref::xml(p);
    t = put(t, "</minimc>", "<estimators>" + bins + "</estimators><perturbations><total name=\"da\" nuclide=\"a\"/><total name=\"db\" nuclide=\"b\"/></perturbations></minimc>");
    bases.push_back({"multigroup", t});
    // k-eigenvalue set-up of the same
    std::string k = t;
    const size_t s0 = k.find("<fixedsource>"), s1 = k.find("</fixedsource>");
    k = k.substr(0, s0) + "<keigenvalue inactive=\"2\" active=\"3\"><initialsource>" + k.substr(s0 + 13, s1 - s0 - 13) + "</initialsource></keigenvalue>" + k.substr(s1 + 14);
    bases.push_back({"k-eigenvalue", k});
    p.temperature_text = ""; p.tracking = ""; p.cells[0].temperature = "0";
    p.dirkind = "isotropic";
    t = ref::xml(p);
    t = put(t, "<seed>1</seed>", "");
    bases.push_back({"plain", t});
  }
  const auto all = zoo::all(dir);
  bases.push_back({"continuous", ref::xml(all[4].p)});
  // files that are no tables of the right kind
  const std::string two = h5::table(dir, "two-dims", std::vector<h5::Vec>{{1, 2}, {3, 4}}, {1, 2, 3, 4}), one = h5::table(dir, "one-dim", {1, 2}, {3, 4});
  mini::spit(dir + "/text.hdf5", "no table\n");
  mini::spit(dir + "/empty.hdf5", "");
  const std::vector<std::string> files{dir + "/missing.hdf5", dir + "/text.hdf5", dir + "/empty.hdf5", two, one, dir};
  auto readable = [&](const std::string& f, int dims) {
    if (f == two) return dims == 2;
    if (f == one) return dims == 1;
    return f != dir && f != dir + "/text.hdf5" && f != dir + "/empty.hdf5";
  };

  auto first = [](const std::string& f) {
    static std::map<std::string, std::vector<double>> known;
    if (!known.count(f)) {
      const auto set = H5::H5File(f, H5F_ACC_RDONLY).openDataSet("/pandas/axis1_level0");
      known[f].resize(set.getSpace().getSimpleExtentNpoints());
      set.read(known[f].data(), H5::PredType::NATIVE_DOUBLE);
    }
    return known[f];
  };
  auto examine = [&](const std::string& what, const pugi::xml_document& doc, bool malformed, const std::string& raw, bool same_path = false) {
    static int serial = 0;
    const std::string path = dir + fmt("/doc-%d-%d.xml", (int)getpid(), same_path ? 0 : serial++ % 4);
    const std::string text = malformed ? raw : save(doc);
    mini::spit(path, text);
    schema::Judgement j;
    if (malformed) j = {Verdict::reject, "not well-formed", {}};
    else { schema::Model m(readable, first); j = m.judge(doc.document_element()); }
    const Result r = create(path);
    run.count("documents");
    run.count("transitions");
    run.count("traces_validated_against_impl");
    run.distinct("states", hash(text));
    run.count(j.v == Verdict::accept ? "accepted" : j.v == Verdict::reject ? "rejected" : "either");
    if (j.v == Verdict::accept && !r.accepted) run.violation(what, "a well-formed document is rejected: " + r.message.substr(0, 400) + "\n" + text.substr(0, 3000));
    if (j.v == Verdict::reject && r.accepted) run.violation(what, "accepted in spite of: " + j.why + "\n" + text.substr(0, 3000));
    if (j.v == Verdict::reject && !r.accepted) {
      run.count("messages_checked");
      if (r.message.empty()) run.violation(what, "rejected without a message; " + j.why);
      for (auto& n : j.named) if (r.message.find(n) == std::string::npos) run.violation(what, "rejected for " + j.why + " without naming '" + n + "': " + r.message.substr(0, 300));
    }
    unlink(path.c_str());
  };

  for (auto& [bname, btext] : bases) {
    pugi::xml_document base;
    if (!base.load_string(btext.c_str())) { fprintf(stderr, "base %s\n", bname.c_str()); return 97; }
    const auto fs = faults_of(base, files);
    const size_t chunk = 25;
    const std::string b = bname, t = btext;
    // ---- one fault
    run.cases("one fault, " + b, (fs.size() + chunk) / chunk, [&](size_t i) {
      if (i == 0) examine(b + " as it is", base, false, "");
      for (size_t k = i * chunk; k < std::min(fs.size(), (i + 1) * chunk); k++) {
        pugi::xml_document d;
        d.load_string(t.c_str());
        fs[k].apply(d);
        examine(b + ": " + fs[k].what, d, false, "");
        if (k % 997 == 5) run.sample(b + ": " + fs[k].what);
      }
    }, [&](size_t i) { return b + ": " + fs[std::min(i * chunk, fs.size() - 1)].what + " and following"; });

    // ---- two faults
    std::vector<size_t> sense;
    for (size_t k = 0; k < fs.size(); k++) if (fs[k].sense) sense.push_back(k);
    std::vector<size_t> kinds;  // all faults, thinned out, for pairs with the others
    for (size_t k = 0; k < fs.size(); k += run.thorough ? 11 : 149) kinds.push_back(k);
    std::vector<std::pair<size_t, size_t>> pairs;
    const size_t step = run.thorough ? 1 : 1 + sense.size() * sense.size() / 3000;
    for (size_t x = 0, n = 0; x < sense.size(); x++) {
      for (size_t y = x + 1; y < sense.size(); y++) if (n++ % step == 0) pairs.push_back({sense[x], sense[y]});
      if (run.thorough || x % 4 == 0) for (auto k : kinds) pairs.push_back({k, sense[x]});
    }
    const size_t pchunk = 100;
    run.cases("two faults, " + b, (pairs.size() + pchunk - 1) / pchunk, [&](size_t i) {
      for (size_t k = i * pchunk; k < std::min(pairs.size(), (i + 1) * pchunk); k++) {
        pugi::xml_document d;
        d.load_string(t.c_str());
        // the later element first: numbers of earlier ones stay
        fs[std::max(pairs[k].first, pairs[k].second)].apply(d);
        fs[std::min(pairs[k].first, pairs[k].second)].apply(d);
        examine(b + ": " + fs[pairs[k].first].what + " and " + fs[pairs[k].second].what, d, false, "");
      }
    }, [&](size_t i) { return b + fmt(": pairs from %zu", i * pchunk); });

    // ---- broken off and mangled
    std::vector<std::pair<size_t, int>> cuts;
    const size_t last = t.rfind('>');
    const size_t stride = run.thorough ? 1 : 9;
    for (size_t k = 0; k <= last; k += stride) cuts.push_back({k, 0});
    for (size_t k = 0, n = 0; k <= last; k++) if (t[k] == '<' || t[k] == '>' || t[k] == '"') { if (n++ % stride == 0) { cuts.push_back({k, 1}); cuts.push_back({k, 2}); } }
    run.cases("mangled, " + b, (cuts.size() + pchunk - 1) / pchunk, [&](size_t i) {
      for (size_t k = i * pchunk; k < std::min(cuts.size(), (i + 1) * pchunk); k++) {
        std::string m = t;
        if (cuts[k].second == 0) m = m.substr(0, cuts[k].first);
        if (cuts[k].second == 1) m.erase(cuts[k].first, 1);
        if (cuts[k].second == 2) m[cuts[k].first] = '&';
        examine(b + fmt(cuts[k].second == 0 ? ", cut after %zu characters" : cuts[k].second == 1 ? ", character %zu dropped" : ", character %zu replaced", cuts[k].first), base, true, m);
      }
    }, [&](size_t i) { return b + fmt(": mangled from %zu", i * pchunk); });
  }

  // ---- sequences: what was read before does not matter
  {
    struct Doc { std::string what, text; bool malformed; };
    std::vector<Doc> ds;
    for (auto& [b, t] : bases) ds.push_back({b, t, false});
    for (size_t k = 0; k < bases.size(); k++) {
      pugi::xml_document base;
      base.load_string(bases[k].second.c_str());
      const auto fs = faults_of(base, files);
      std::vector<size_t> sense;
      for (size_t f = 0; f < fs.size(); f++) if (fs[f].sense) sense.push_back(f);
      for (size_t q : {(size_t)3, fs.size() / 3, fs.size() / 2 + 1, fs.size() - 7}) { pugi::xml_document d; d.load_string(bases[k].second.c_str()); fs[q].apply(d); ds.push_back({bases[k].first + ": " + fs[q].what, save(d), false}); }
      for (size_t q : {(size_t)0, sense.size() / 4, sense.size() / 2, sense.size() * 3 / 4, sense.size() - 1}) { pugi::xml_document d; d.load_string(bases[k].second.c_str()); fs[sense[q]].apply(d); ds.push_back({bases[k].first + ": " + fs[sense[q]].what, save(d), false}); }
      ds.push_back({bases[k].first + " cut off", bases[k].second.substr(0, bases[k].second.size() / 2), true});
    }
    const size_t n = ds.size();
    run.cases("sequences", n * n, [&](size_t i) {
      std::vector<std::vector<size_t>> seq{{i / n, i % n, i / n}};
      if (run.thorough) { seq.clear(); for (size_t k = i % 3; k < n; k += 3) seq.push_back({i / n, i % n, k}); }
      for (auto& s : seq) {
        std::string what = "after one another:";
        for (size_t k : s) {
          what += " [" + ds[k].what + "]";
          pugi::xml_document d;
          if (!ds[k].malformed) d.load_string(ds[k].text.c_str());
          examine(what, d, ds[k].malformed, ds[k].text, true);
        }
      }
    }, [&](size_t i) { return ds[i / n].what + ", then " + ds[i % n].what; });
  }

  // ---- optional parts
  for (size_t bi : {(size_t)0, (size_t)3}) {
    const auto& [b, t] = bases[bi];
    std::vector<std::pair<std::string, std::string>> parts;  // xpath, attribute
    if (bi == 0)
      parts = {{"//seed", ""}, {"//tracking", ""}, {"/minimc/temperature", ""}, {"//estimators", ""}, {"//perturbations", ""}, {"//current[1]/bins/energy", ""}, {"//current[1]/bins/cosine", ""}, {"//current[1]/bins", ""}, {"//logspace", "base"}, {"//sensitivities", ""}, {"//cell[1]", "temperature"},
               {"//nuclide[@name='a']/neutron/fission", ""}, {"//nuclide[@name='a']/neutron/scatter", ""}, {"//nuclide[@name='b']/neutron/capture", ""}, {"//nuclide[@name='b']/photon", ""}};
    else
      parts = {{"//seed", ""}, {"//tracking", ""}, {"/minimc/temperature", ""}, {"//estimators", ""}, {"//perturbations", ""}, {"//sensitivities", ""}, {"//cell[2]", "temperature"}, {"//nuclide/neutron/total", ""}, {"//tsl", ""}, {"//fission", ""}, {"//nuclide[@name='water']/neutron/scatter", ""}, {"//nuclide[@name='carbon']/neutron/capture", ""}};
    const size_t n = parts.size(), total = (size_t)1 << n, step = run.thorough ? 1 : bi == 0 ? 7 : 3, chunk = 32;
    run.cases("optional parts, " + b, (total / step + chunk) / chunk, [&, n, total, step](size_t i) {
      for (size_t q = i * chunk; q < (i + 1) * chunk; q++) {
        const size_t mask = q * step;
        if (mask >= total) break;
        pugi::xml_document d;
        d.load_string(bases[bi].second.c_str());
        std::string what = bases[bi].first + " without";
        for (size_t k = 0; k < n; k++) if (mask >> k & 1) {
          what += " " + parts[k].first + (parts[k].second.empty() ? "" : "@" + parts[k].second);
          for (bool more = true; more;) {
            more = false;
            auto x = d.select_node(parts[k].first.c_str()).node();
            if (!x) break;
            if (parts[k].second.empty()) { x.parent().remove_child(x); more = true; } else x.remove_attribute(parts[k].second.c_str());
          }
        }
        examine(what, d, false, "");
      }
    }, [&](size_t i) { return bases[bi].first + fmt(": parts from %zu", i * chunk); });
  }
  return run.finish();
}
