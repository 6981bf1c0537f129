// Recorder for element accesses that may have to be rejected (assertion builds).
#ifndef REC_TRY_HPP
#define REC_TRY_HPP
#include "rec.hpp"
#include "Mesh.hpp"
#include "BandMatrix.hpp"
namespace rec {
inline std::string exc_name() {
    try { throw; }
    catch (const std::domain_error&) { return "domain_error"; }
    catch (const std::runtime_error&) { return "runtime_error"; }
    catch (const std::exception&) { return "exception"; }
    catch (...) { return "unknown"; }
}
template <std::size_t D>
struct MeshTry : SessBase {
    template <std::size_t... I>
    static double get(intp::Mesh<double, D>& m, const std::array<int, D>& i, int path, std::size_t d, intp::util::index_sequence<I...>) {
        const intp::Mesh<double, D>& k = m;
        std::array<std::size_t, D> a{{static_cast<std::size_t>(i[I])...}};
        switch (path) {
            case 0: return m(i[I]...);
            case 1: return k(static_cast<std::size_t>(i[I])...);
            case 2: return m.data()[m.dimension().indexing_safe(a)];
            case 3: return m.data()[m.dimension().indexing_safe(i[I]...)];
            case 4: return m.begin(d, a)[i[d]];
            case 5: return k.begin(d, a)[i[d]];
            case 6: { double& r = m(a[I]...); double v = r; r = v; return v; }
        }
        std::exit(67);
    }
    void op(const std::string& line) override {   // MT n (path d dims.. idx..)..
        Reader in(line);
        if (in.w() != "MT") std::exit(66);
        std::array<std::size_t, D> s{};
        std::string dj = "[";
        std::size_t N = 1;
        for (std::size_t d = 0; d < D; ++d) { s[d] = std::size_t(in.i()); N *= s[d]; dj += (d ? "," : "") + std::to_string(s[d]); }
        dj += "]";
        intp::Mesh<double, D> m{intp::MeshDimension<D>(s)};
        for (std::size_t q = 0; q < N; ++q) {
            std::array<std::size_t, D> ix{};
            for (std::size_t d = D, r = q; d-- > 0;) { ix[d] = r % s[d]; r /= s[d]; }
            m(ix) = double(q);
        }
        int n = in.i();
        std::string js;
        for (int k = 0; k < n; ++k) {
            int path = in.i();
            std::size_t d = std::size_t(in.i());
            std::array<int, D> i{};
            std::string ij = "[";
            for (std::size_t e = 0; e < D; ++e) { i[e] = in.i(); ij += (e ? "," : "") + std::to_string(i[e]); }
            std::string r;
            try { r = std::to_string(long(get(m, i, path, d, intp::util::make_index_sequence<D>{}))); }
            catch (...) { r = exc_name(); }
            js += std::string(k ? "," : "") + "{\"path\":" + std::to_string(path) + ",\"i\":" + ij + "],\"r\":\"" + r + "\"}";
        }
        emit("{\"e\":\"MeshTry\",\"dims\":" + dj + ",\"q\":[" + js + "]}");
    }
};
struct BandTry : SessBase {
    void op(const std::string& line) override {   // BT n p q x : every element, every path
        Reader in(line);
        if (in.w() != "BT") std::exit(66);
        std::size_t n = std::size_t(in.i()), p = std::size_t(in.i()), q = std::size_t(in.i());
        int x = in.i();
        std::string js;
        if (x) {
            intp::ExtendedBandMatrix<double> m(n, p, q);
            const auto& k = m;
            each(n, js, {[&](std::size_t i, std::size_t j) { m(i, j) = 3; }, [&](std::size_t i, std::size_t j) { (void)k(i, j); },
                         [&](std::size_t i, std::size_t j) { m.main_bands_val(i, j) = 3; }, [&](std::size_t i, std::size_t j) { (void)k.main_bands_val(i, j); },
                         [&](std::size_t i, std::size_t j) { m.side_bands_val(i, j) = 3; }, [&](std::size_t i, std::size_t j) { (void)k.side_bands_val(i, j); }});
        } else {
            intp::BandMatrix<double> m(n, p, q);
            const auto& k = m;
            each(n, js, {[&](std::size_t i, std::size_t j) { m(i, j) = 3; }, [&](std::size_t i, std::size_t j) { (void)k(i, j); }});
        }
        emit("{\"e\":\"BandTry\",\"n\":" + std::to_string(n) + ",\"p\":" + std::to_string(p) + ",\"q\":" + std::to_string(q) +
             ",\"x\":" + (x ? "true" : "false") + ",\"t\":[" + js + "]}");
    }
    static void each(std::size_t n, std::string& js, const std::vector<std::function<void(std::size_t, std::size_t)>>& paths) {
        for (std::size_t t = 0; t < paths.size(); ++t)
            for (std::size_t i = 0; i < n; ++i)
                for (std::size_t j = 0; j < n; ++j) {
                    std::string r = "ok";
                    try { paths[t](i, j); } catch (...) { r = exc_name(); }
                    js += std::string(js.empty() ? "" : ",") + "{\"path\":" + std::to_string(t) + ",\"i\":" + std::to_string(i) + ",\"j\":" + std::to_string(j) +
                          ",\"r\":\"" + r + "\"}";
                }
    }
};
template <typename S> SessBase* make_try() { return new S(); }
struct Registrar { Registrar(const char* k, Factory f) { registry()[k] = f; } };
static const Registrar t1("mesh1", &make_try<MeshTry<1>>), t2("mesh2", &make_try<MeshTry<2>>), t3("mesh3", &make_try<MeshTry<3>>),
    t4("mesh4", &make_try<MeshTry<4>>), t5("band", &make_try<BandTry>);
}  // namespace rec
#endif
