// Reads and re-writes mesh files with the real readers and dumps what it holds.
#include "general_definitions.hpp"
#include "preprocessor/ADCIRC_reader/adcirc_format.hpp"
#include "preprocessor/mesh_metadata.hpp"
#include <cstdio>
#include <cstring>
static FILE* L;
static void dump(const AdcircFormat& a, const char* tag) {
    std::fprintf(L, "%s NAME %s\n", tag, a.name.c_str());
    for (auto& n : a.nodes) std::fprintf(L, "%s NODE %u %.17g %.17g %.17g\n", tag, n.first, n.second[0], n.second[1], n.second[2]);
    for (auto& e : a.elements) std::fprintf(L, "%s ELT %u %u %u %u %u\n", tag, e.first, e.second[0], e.second[1], e.second[2], e.second[3]);
    std::fprintf(L, "%s COUNTS %u %u %u %u %u %u\n", tag, a.NOPE, a.NETA, a.NBOU, a.NVEL, a.NGEN, a.NNGN);
    std::fprintf(L, "%s SIZES %zu %zu %zu %zu\n", tag, a.NBDV.size(), a.NBVV.size(), a.IBTYPE.size(), a.NBGN.size());
    auto seg = [&](const char* k, size_t i, const std::vector<uint>& v) { std::fprintf(L, "%s %s %zu", tag, k, i); for (uint n : v) std::fprintf(L, " %u", n); std::fprintf(L, "\n"); };
    for (size_t i = 0; i < a.NBDV.size(); ++i) seg("OPEN", i, a.NBDV[i]);
    for (size_t i = 0; i < a.NBVV.size(); ++i) { std::fprintf(L, "%s TYPE %zu %u\n", tag, i, a.IBTYPE[i]); seg("LAND", i, a.NBVV[i]); }
    for (auto& c : a.IBCONN) seg("CONN", c.first, c.second);
    auto dbl = [&](const char* k, const std::map<uint, std::vector<double>>& m) { for (auto& c : m) { std::fprintf(L, "%s %s %u", tag, k, c.first); for (double v : c.second) std::fprintf(L, " %.17g", v); std::fprintf(L, "\n"); } };
    dbl("BARH", a.BARINTH); dbl("BARB", a.BARINCFSB); dbl("BARP", a.BARINCFSP);
    for (size_t i = 0; i < a.NBGN.size(); ++i) seg("GEN", i, a.NBGN[i]);
}
static void dump(const MeshMetaData& m, const char* tag) {
    std::fprintf(L, "%s NAME %s\n", tag, m.mesh_name.c_str());
    for (auto& n : m.nodes) std::fprintf(L, "%s NODE %u %.17g %.17g %.17g\n", tag, n.first, n.second.coordinates[0], n.second.coordinates[1], n.second.coordinates[2]);
    for (auto& e : m.elements) {
        std::fprintf(L, "%s ELT %u %zu", tag, e.first, e.second.node_ID.size());
        for (uint v : e.second.node_ID) std::fprintf(L, " %u", v);
        for (uint v : e.second.neighbor_ID) std::fprintf(L, " %u", v);
        for (auto v : e.second.boundary_type) std::fprintf(L, " %u", (unsigned)v);
        std::fprintf(L, "\n");
    }
}
int main(int argc, char** argv) {
    // grid IN OUT14 META LOG [queries]: read, dump A, write, read back, dump B; classify the queried edges; build meta data, dump M, write, read back, dump N
    // meta IN OUT LOG: read, dump M, write, read back, dump N        dbmd IN loc sub LOG: read and dump
    std::string mode = argv[1];
    try {
        if (mode == "grid") {
            L = std::fopen(argv[5], "w");
            AdcircFormat a(argv[2]); dump(a, "A"); std::fflush(L);
            a.write_to(argv[3]); { AdcircFormat b(argv[3]); dump(b, "B"); } std::fflush(L);
            if (argc > 6) {
                std::ifstream q(argv[6]); uint x, y;
                while (q >> x >> y) {
                    std::array<uint, 2> p{{x, y}}; int t = -1; std::fprintf(L, "Q %u %u ", x, y);
                    try { t = a.get_ibtype(p); } catch (const std::logic_error& e) { }
                    std::fprintf(L, "%d", t);
                    if (t >= 0 && is_internal(t)) { std::array<uint, 2> o{{0, 0}}; try { o = a.get_internal_node_pair(p); std::fprintf(L, " %u %u", o[0], o[1]); } catch (const std::logic_error& e) { std::fprintf(L, " none"); } }
                    std::fprintf(L, "\n");
                }
                std::fprintf(L, "END\n"); std::fclose(L); return 0;
            }
            MeshMetaData m(a); dump(m, "M"); std::fflush(L);
            m.write_to(argv[4]); MeshMetaData n{std::string(argv[4])}; dump(n, "N");
        } else if (mode == "meta") {
            L = std::fopen(argv[4], "w");
            MeshMetaData m{std::string(argv[2])}; dump(m, "M"); std::fflush(L);
            m.write_to(argv[3]); MeshMetaData n{std::string(argv[3])}; dump(n, "N");
        } else if (mode == "dbmd") {
            L = std::fopen(argv[5], "w");
            DistributedBoundaryMetaData d(argv[2], std::atoi(argv[3]), std::atoi(argv[4]));
            for (auto& r : d.rank_boundary_data) {
                std::fprintf(L, "R %u %u %u %u\n", r.locality_in, r.submesh_in, r.locality_ex, r.submesh_ex);
                for (size_t i = 0; i < r.elements_in.size(); ++i) std::fprintf(L, "P %u %u %u %u %u\n", r.elements_in[i], r.elements_ex[i], r.bound_ids_in[i], r.bound_ids_ex[i], r.p[i]);
            }
        }
    } catch (const std::exception& e) { std::fprintf(L, "EXC %s\n", e.what()); std::fclose(L); return 3; }
    std::fprintf(L, "END\n"); std::fclose(L);
    return 0;
}
