// Recorder shared by the serial and distributed drivers: explicit specialisation of Writer<>::WriteOutput turns every
// output event of the real Run() into a full-precision log record.
#ifndef VERIF_REC_HPP
#define VERIF_REC_HPP
#include <cstdio>
#include <cstdlib>
#include <map>
#include <mutex>
#include <string>
#include <typeinfo>
#include <cxxabi.h>

namespace rec {
inline std::string demangle(const char* n) {
    int st = 0;
    char* p = abi::__cxa_demangle(n, nullptr, nullptr, &st);
    std::string s = p ? p : n;
    std::free(p);
    auto k = s.rfind("::");
    return k == std::string::npos ? s : s.substr(k + 2);
}
template <typename T>
std::string tname(const T& t) { return demangle(typeid(t).name()); }

inline std::map<const void*, FILE*>& files() { static std::map<const void*, FILE*> m; return m; }
inline std::mutex& mtx() { static std::mutex m; return m; }

template <typename S> auto get_t(const S& s, int) -> decltype(s.GetTimeAtCurrentStage()) { return s.GetTimeAtCurrentStage(); }
template <typename S> auto get_ramp(const S& s, int) -> decltype(s.GetRamp()) { return s.GetRamp(); }
template <typename S> double get_ramp(const S& s, long) { return s.GetFirstStepper().GetRamp(); }
template <typename S> auto get_stage(const S& s, int) -> decltype(s.GetStage()) { return s.GetStage(); }
template <typename S> uint get_stage(const S& s, long) { return s.GetFirstStepper().GetStage() + 100 * s.GetSecondStepper().GetStage(); }

// Duffy points: nq x nq Gauss in collapsed coordinates, listed with the reference points so that the oracle can
// integrate without the code's own quadrature.
inline AlignedVector<Point<2>> ref_points() {
    AlignedVector<Point<2>> P;
    auto add = [&P](double a, double b) { Point<2> p; p[0] = a; p[1] = b; P.push_back(p); };
    add(-1, -1); add(1, -1); add(-1, 1);
    add(0, 0); add(-1, 0); add(0, -1);
    add(-1. / 3, -1. / 3);
    static const double x[8] = {-0.9602898564975363, -0.7966664774136267, -0.5255324099163290, -0.1834346424956498,
                                0.1834346424956498,  0.5255324099163290,  0.7966664774136267,  0.9602898564975363};
    for (int i = 0; i < 8; ++i)
        for (int j = 0; j < 8; ++j) {
            double a = x[i], b = x[j];
            add((1 + a) * (1 - b) / 2 - 1, b);
        }
    return P;
}

template <typename MeshType>
void dump_mesh(FILE* f, MeshType& mesh) {
    bool first = true;
    std::map<const void*, uint> ids;
    std::fprintf(f, "MESH %s p %u nelt %u nint %u nbnd %u ndist %u\n", mesh.GetMeshName().c_str(), mesh.GetP(), mesh.GetNumberElements(),
                 mesh.GetNumberInterfaces(), mesh.GetNumberBoundaries(), mesh.GetNumberDistributedBoundaries());
    mesh.CallForEachElement([&](auto& elt) {
        ids[&elt.data] = elt.GetID();
        if (first) {
            first = false;
            auto P = ref_points();
            auto phi = const_cast<std::decay_t<decltype(elt.GetMaster())>&>(elt.GetMaster()).basis.GetPhi(mesh.GetP(), P);
            std::fprintf(f, "PHI %zu %zu", (size_t)rows(phi), (size_t)columns(phi));
            for (uint i = 0; i < rows(phi); ++i)
                for (uint j = 0; j < columns(phi); ++j) std::fprintf(f, " %.17g", phi(i, j));
            std::fprintf(f, "\n");
        }
        std::fprintf(f, "ELT %u N", elt.GetID());
        for (auto n : elt.GetNodeID()) std::fprintf(f, " %u", n);
        std::fprintf(f, " G");
        for (auto n : elt.GetNeighborID()) std::fprintf(f, " %u", n);
        std::fprintf(f, " T");
        for (auto n : elt.GetBoundaryType()) std::fprintf(f, " %u", (uint)n);
        std::fprintf(f, " X");
        for (auto& c : elt.GetShape().nodal_coordinates) std::fprintf(f, " %.17g %.17g %.17g", c[0], c[1], c[2]);
        std::fprintf(f, "\n");
    });
    mesh.CallForEachInterface([&](auto& i) {
        std::fprintf(f, "INT %s %u %u %u %u\n", tname(i.specialization).c_str(), ids[&i.data_in], i.bound_id_in, ids[&i.data_ex], i.bound_id_ex);
    });
    mesh.CallForEachBoundary([&](auto& b) { std::fprintf(f, "BND %s %u %u\n", tname(b.boundary_condition).c_str(), ids[&b.data], b.bound_id); });
    mesh.CallForEachDistributedBoundary(
        [&](auto& b) { std::fprintf(f, "DST %s %u %u\n", tname(b.boundary_condition).c_str(), ids[&b.data], b.bound_id); });
}
template <typename Disc>
auto dump_skel(FILE* f, Disc& d, int) -> decltype(d.mesh_skeleton, void()) {
    std::map<const void*, uint> ids;
    d.mesh.CallForEachElement([&](auto& elt) { ids[&elt.data] = elt.GetID(); });
    d.mesh_skeleton.CallForEachEdgeInterface([&](auto& e) {
        std::fprintf(f, "EI %s %u %u %u %u\n", tname(e.interface.specialization).c_str(), ids[&e.interface.data_in], e.interface.bound_id_in,
                     ids[&e.interface.data_ex], e.interface.bound_id_ex);
    });
    d.mesh_skeleton.CallForEachEdgeBoundary([&](auto& e) {
        std::fprintf(f, "EB %s %u %u\n", tname(e.boundary.boundary_condition).c_str(), ids[&e.boundary.data], e.boundary.bound_id);
    });
    d.mesh_skeleton.CallForEachEdgeDistributed([&](auto& e) {
        std::fprintf(f, "ED %s %u %u\n", tname(e.boundary.boundary_condition).c_str(), ids[&e.boundary.data], e.boundary.bound_id);
    });
}
template <typename Disc>
void dump_skel(FILE*, Disc&, long) {}

template <typename M>
void put(FILE* f, const M& m) {
    for (uint i = 0; i < rows(m); ++i)
        for (uint j = 0; j < columns(m); ++j) std::fprintf(f, " %.17g", (double)m(i, j));
}

template <typename MeshType>
void dump_state(FILE* f, double t, uint step, uint stage, double ramp, MeshType& mesh, bool bath, uint state_idx = 0) {
    std::fprintf(f, "S %u %u %.17g %.17g\n", step, stage, t, ramp);
    mesh.CallForEachElement([&](auto& elt) {
        auto& st = elt.data.state[state_idx];
        if (bath) {
            std::fprintf(f, "A %u", elt.GetID());
            for (uint j = 0; j < columns(st.q); ++j) std::fprintf(f, " %.17g", (double)elt.data.state[0].aux(0, j));
            std::fprintf(f, "\n");
        }
        std::fprintf(f, "E %u %d", elt.GetID(), elt.data.wet_dry_state.wet ? 1 : 0);
        put(f, st.q);
        std::fprintf(f, "\n");
        if (elt.data.wet_dry_state.went_completely_dry) std::fprintf(f, "D %u\n", elt.GetID());
        auto& sl = elt.data.slope_limit_state;
        if (sl.perimeter != 0.0 || sl.troubled) std::fprintf(f, "X %u %d %.17g\n", elt.GetID(), sl.troubled ? 1 : 0, sl.I);
    });
}
}
#endif
