// Directions.
//  isotropic: the lattice of all pairs of draws gives directions of unit length whose distribution is uniform over every
//             band and sector around every one of a set of axes, through every way in which directions are sampled.
//  rotate:    lattice of original directions x cosines x azimuths: unit length, the asked cosine, the full cone swept
//             uniformly and in one sense.
//  scatter:   over all strata of the draws a scattered particle has the asked cosine and energy and a uniform azimuth.
#include "choice.hpp"
#include "probe.hpp"
#include "problems.hpp"
#include "Source.hpp"
#include "vh.hpp"
#include <algorithm>
using namespace vh;
using namespace prob;

namespace {
const double kPi = 3.14159265358979323846;
std::vector<V> sphere(int n) {  // Fibonacci lattice
  std::vector<V> r;
  for (int i = 0; i < n; i++) {
    const double z = 1 - (2 * i + 1.0) / n, p = i * kPi * (3 - std::sqrt(5.0)), s = std::sqrt(1 - z * z);
    r.push_back({s * std::cos(p), s * std::sin(p), z});
  }
  return r;
}
V cross(V a, V b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
std::vector<V> axes() {
  std::vector<V> r{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, ref::unit({1, 1, 0}), ref::unit({1, 1, 1}), ref::unit({0, 1, -1}), ref::unit({-1, 2, 3})};
  for (auto& v : sphere(16)) r.push_back(v);
  return r;
}
// distance of the distribution of n directions from uniformity around an axis: (bands, sectors, boxes)
struct Uniformity { double cosine = 0, azimuth = 0, box = 0; };
Uniformity uniformity(const std::vector<V>& ds, V a) {
  const V u = ref::unit(cross(a, std::fabs(a.x) < 0.7 ? V{1, 0, 0} : V{0, 1, 0})), w = cross(a, u);
  std::vector<double> c, f;
  std::vector<int> box(8 * 12, 0);
  for (auto& d : ds) {
    const double x = ref::dot(d, a);
    double t = std::atan2(ref::dot(d, w), ref::dot(d, u)) / (2 * kPi);
    if (t < 0) t += 1;
    c.push_back((x + 1) / 2);
    f.push_back(t);
    box[std::min(7, std::max(0, (int)(c.back() * 8))) * 12 + std::min(11, std::max(0, (int)(t * 12)))]++;
  }
  auto ks = [](std::vector<double>& v) {
    std::sort(v.begin(), v.end());
    double r = 0;
    for (size_t i = 0; i < v.size(); i++) r = std::max({r, std::fabs(v[i] - (double)i / v.size()), std::fabs(v[i] - (i + 1.0) / v.size())});
    return r;
  };
  Uniformity r{ks(c), ks(f), 0};
  for (int b : box) r.box = std::max(r.box, std::fabs((double)b / ds.size() * 96 - 1));
  return r;
}
std::vector<V> originals(bool thorough) {
  std::vector<V> r;
  for (int k = 0; k < 6; k++) {
    const double s = k % 2 ? -1 : 1;
    const V a = k / 2 == 0 ? V{s, 0, 0} : k / 2 == 1 ? V{0, s, 0} : V{0, 0, s};
    r.push_back(a);
    const V b{a.y, a.z, a.x}, c{a.z, a.x, a.y};
    for (double e : {1e-1, 1e-3, 1e-6, 1e-8, 1e-12, 1e-15, 1e-17, 1e-160, 1e-300, 5e-324})
      for (double f : {-1.0, 0.0, 0.7, 1.0}) r.push_back(ref::unit({a.x + e * (b.x + f * c.x), a.y + e * (b.y + f * c.y), a.z + e * (b.z + f * c.z)}));
  }
  // around every cosine with the x, y and z axes
  for (int i = 0; i <= 40; i++) {
    for (double x : {-1 + 0.05 * i, std::nextafter(-1 + 0.05 * i, 2.0), std::nextafter(-1 + 0.05 * i, -2.0)}) {
      if (std::fabs(x) > 1) continue;
      const double s = std::sqrt(1 - x * x);
      for (int q = 0; q < (thorough ? 8 : 3); q++) {
        const double t = 0.3 + q * 2.1;
        r.push_back({x, s * std::cos(t), s * std::sin(t)});
        r.push_back({s * std::cos(t), x, s * std::sin(t)});
        r.push_back({s * std::cos(t), s * std::sin(t), x});
      }
    }
  }
  for (auto& v : sphere(thorough ? 2000 : 200)) r.push_back(v);
  return r;
}
std::vector<double> cosines(bool thorough) {
  std::vector<double> r{-1, 1, 0, std::nextafter(1.0, 0.0), std::nextafter(-1.0, 0.0), 1 - 1e-12, -1 + 1e-12, 1e-300, -1e-17, 1e-9, 0.9, -0.9};
  const int n = thorough ? 40 : 10;
  for (int i = 1; i < n; i++) r.push_back(-1 + 2.0 * i / n + 0.003);
  return r;
}
std::string str(V v) { return fmt("(%.17g, %.17g, %.17g)", v.x, v.y, v.z); }
// error text of new directions around d with cosine mu, or empty
std::string lengths(V n, V d, double mu) {
  const double len = std::sqrt(ref::dot(n, n)), c = ref::dot(n, d);
  if (!(std::fabs(len - 1) < 1e-12)) return fmt("length %.15g of ", len) + str(n);
  if (!(std::fabs(c - mu) < 1e-12)) return fmt("cosine %.15g instead of %.15g", c, mu);
  return "";
}
}  // namespace

int main(int argc, char** argv) {
  Run run(argc, argv);
  run.declare({"states", "transitions", "directions", "traces_validated_against_impl"});

  // ---- isotropic directions
  const int N = run.thorough ? 1000 : 240;
  const std::vector<std::string> ways{"Direction(rng)", "Particle::SetDirectionIsotropic", "isotropic source", "Direction(rng) with ends of the unit interval"};
  run.cases("isotropic", ways.size(), [&](size_t way) {
    std::vector<V> ds;
    Problem p = shells({1}, {"m0"});
    use(p, absorber(2));
    mini::Doc doc(ref::xml(p).c_str());
    pugi::xml_document sd;
    sd.load_string("<source><position><constant x='0' y='0' z='0'/></position><direction><isotropic/></direction>"
                   "<energy><constant energy='1'/></energy><particletype><constant type='neutron'/></particletype></source>");
    doc.root.append_copy(sd.child("source"));
    const Source source{doc.root.last_child()};
    auto sample = [&]() -> V {
      std::minstd_rand g{1};
      if (way == 0 || way == 3) return vec(Direction{g});
      if (way == 1) { Particle q{Point{}, direction({0, 0.6, 0.8}), Energy{Group{1}}, Particle::Type::neutron, 1}; q.SetDirectionIsotropic(); return vec(q.GetDirection()); }
      return vec(source.Sample(1).GetDirection());
    };
    const int n = way == 3 ? 12 : N;
    const double ends[12] = {0, 0x1p-53, 0x1p-30, 1e-9, 0.25, 0.5 - 0x1p-54, 0.5, 0.5 + 0x1p-53, 0.75, 1 - 1e-9, 1 - 0x1p-30, 1 - 0x1p-53};
    for (int i = 0; i < n * n; i++) {
      int k = 0;
      verif::serve() = [&](std::minstd_rand&) {
        k++;
        if (k > 2) return (mix(i * 64 + k) >> 11) * 0x1p-53;
        const int s = k == 1 ? i / n : i % n;
        return way == 3 ? ends[s] : (s + 0.5) / n;
      };
      const V d = sample();
      verif::serve() = nullptr;
      if (!(std::fabs(std::sqrt(ref::dot(d, d)) - 1) < 1e-12)) { run.violation(ways[way], "a direction of length " + fmt("%.15g: ", std::sqrt(ref::dot(d, d))) + str(d)); return; }
      ds.push_back(d);
      run.count("transitions");
      run.count("directions");
    }
    run.count("states", ds.size());
    run.count("traces_validated_against_impl", ds.size());
    if (way == 3) return;
    double w1 = 0, w2 = 0, w3 = 0;
    for (auto& a : axes()) {
      const Uniformity u = uniformity(ds, a);
      w1 = std::max(w1, u.cosine); w2 = std::max(w2, u.azimuth); w3 = std::max(w3, u.box);
      if (u.cosine > 0.01 || u.azimuth > 0.015 || u.box > 0.16)
        run.violation(ways[way], "not uniform around " + str(a) + fmt(": cosine off by %.4f, azimuth by %.4f, boxes by %.3f", u.cosine, u.azimuth, u.box));
    }
    run.sample(ways[way] + fmt(": largest deviations from uniformity %.4f (cosine), %.4f (azimuth), %.3f (boxes)", w1, w2, w3));
  }, [&](size_t w) { return ways[w]; });

  // ---- all constructors give unit vectors
  const std::vector<double> mags{1e-300, 1e-100, 1e-8, 1, 3, 1e8, 1e100};
  run.cases("normalise", mags.size(), [&](size_t i) {
    for (auto& v : originals(run.thorough)) {
      const double m = mags[i];
      if (m < 1e-150 || m > 1e150) continue;  // squares leave the range of floating point numbers
      for (int way = 0; way < 3; way++) {
        V d;
        const V q{v.x * m, v.y * m, v.z * m};
        if (way == 0) d = vec(Direction{q.x, q.y, q.z});
        if (way == 1) d = vec(Direction{point(q)});
        if (way == 2) {
          pugi::xml_document x;
          x.load_string(("<a x='" + mini::num(q.x) + "' y='" + mini::num(q.y) + "' z='" + mini::num(q.z) + "'/>").c_str());
          d = vec(Direction{x.first_child()});
        }
        const V c = cross(d, v);
        if (!(std::fabs(ref::dot(d, d) - 1) < 1e-12) || ref::dot(d, v) < 0 || std::sqrt(ref::dot(c, c)) > 1e-9)
          run.violation("normalise " + str(q), str(d));
        run.count("directions");
        run.count("transitions");
      }
    }
  }, [&](size_t i) { return fmt("vectors of length %g", mags[i]); });

  // ---- rotations
  const auto ds = originals(run.thorough);
  const auto mus = cosines(run.thorough);
  const int P = run.thorough ? 96 : 24;
  run.cases("rotate", ds.size(), [&](size_t i) {
    const Direction d0 = direction(ds[i]);
    const V d = vec(d0);
    int sense = 0;
    for (double mu : mus) {
      std::vector<V> perp;
      const double s = std::sqrt((1 - mu) * (1 + mu));
      for (int k = 0; k < P; k++) {
        const V n = vec(Direction{d0, mu, 2 * kPi * k / P});
        run.count("transitions");
        run.count("directions");
        const std::string err = lengths(n, d, mu);
        if (!err.empty()) { run.violation("rotating " + str(d) + fmt(" by cosine %.17g azimuth %d/%d", mu, k, P), err); return; }
        perp.push_back({(n.x - mu * d.x) / s, (n.y - mu * d.y) / s, (n.z - mu * d.z) / s});
      }
      if (s < 1e-3) continue;
      for (int k = 0; k < P; k++) {
        const V a = perp[k], b = perp[(k + 1) % P];
        const double co = ref::dot(a, b), si = ref::dot(cross(a, b), d);
        if (std::fabs(co - std::cos(2 * kPi / P)) > 1e-8 || std::fabs(std::fabs(si) - std::sin(2 * kPi / P)) > 1e-8 || (sense && (si > 0) != (sense > 0))) {
          run.violation("rotating " + str(d) + fmt(" by cosine %.17g", mu), fmt("azimuths %d/%d and %d/%d are %.9g rad apart", k, P, k + 1, P, std::atan2(si, co)));
          return;
        }
        sense = si > 0 ? 1 : -1;
      }
    }
    run.count("states");
    run.count("traces_validated_against_impl", mus.size() * P);
    if (i % 211 == 0) run.sample("original direction " + str(d));
  }, [&](size_t i) { return "rotations of " + str(ds[i]); });

  // ---- scattering of particles
  const int M = run.thorough ? 5000 : 200;
  const auto few = [&] { std::vector<V> r; for (size_t i = 0; i < ds.size(); i += 7) r.push_back(ds[i]); return r; }();
  run.cases("scatter", few.size(), [&](size_t i) {
    const Direction d0 = direction(few[i]);
    const V d = vec(d0), u = ref::unit(cross(d, std::fabs(d.x) < 0.7 ? V{1, 0, 0} : V{0, 1, 0})), w = cross(d, u);
    for (double mu : {-1.0, -0.97, -0.3, 0.0, 0.4, 0.999, 1.0})
      for (int kind = 0; kind < 2; kind++) {
        std::vector<double> az;
        for (int k = 0; k < M; k++) {
          int n = 0;
          verif::serve() = [&](std::minstd_rand&) { return n++ ? (mix(n + 100 * k) >> 11) * 0x1p-53 : (k + 0.5) / M; };
          Particle p{Point{1, 2, 3}, d0, kind ? Energy{ContinuousEnergy{0.5}} : Energy{Group(1)}, kind ? Particle::Type::photon : Particle::Type::neutron, 7};
          p.Scatter(mu, kind ? Energy{ContinuousEnergy{0.25}} : Energy{Group(2)});
          verif::serve() = nullptr;
          const V n1 = vec(p.GetDirection());
          const std::string err = lengths(n1, d, mu);
          if (!err.empty()) { run.violation("scattering " + str(d) + fmt(" by cosine %g", mu), err); return; }
          if (energy_of(p) != (kind ? 0.25 : 2)) { run.violation("scattering", fmt("energy %g after the scatter", energy_of(p))); return; }
          if (!same(vec(p.GetPosition()), {1, 2, 3})) { run.violation("scattering", "the particle moved"); return; }
          const double t = std::atan2(ref::dot(n1, w), ref::dot(n1, u)) / (2 * kPi);
          az.push_back(t < 0 ? t + 1 : t);
          run.count("transitions");
          run.count("traces_validated_against_impl");
        }
        if (std::fabs(mu) == 1) continue;
        std::sort(az.begin(), az.end());
        for (int k = 0; k < M; k++) {
          const double gap = k ? az[k] - az[k - 1] : az[0] + 1 - az[M - 1];
          if (gap > 2.1 / M) { run.violation("scattering " + str(d) + fmt(" by cosine %g", mu), fmt("no azimuth between %.4f and %.4f of the circle", k ? az[k - 1] : az[M - 1], az[k])); return; }
        }
        // uniform: in every one of M/10 sectors about ten
        std::vector<int> box(M / 10, 0);
        for (double t : az) box[std::min(M / 10 - 1, (int)(t * (M / 10)))]++;
        for (int b : box) if (b < 8 || b > 12) { run.violation("scattering " + str(d) + fmt(" by cosine %g", mu), fmt("a sector of the circle holds %d azimuths instead of 10", b)); return; }
      }
    run.count("states");
  }, [&](size_t i) { return "scatters of " + str(few[i]); });
  return run.finish();
}
