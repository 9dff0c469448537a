//@link mapped
//@bound files that do not exist, for every format
#include "meshfile.hpp"
using namespace vp;
// VP_WRAP
template<typename M, typename F> static void missing(F load) { M m; vp_check(!load(m), "a missing file is refused"); vp_check(m.points_size() == 0 && m.cells_size() == 0, "nothing is loaded from a missing file"); }
VP_H(missing_files) { const char* no = "/proc/self/fd/9999"; using namespace disk; switch (vp_pick("format", 0, 9)) {
    case 0: missing<simplicial_mesh<T,2>>([&](auto& m) { return load_mesh_netgen(no, m); }); break; case 1: missing<simplicial_mesh<T,3>>([&](auto& m) { return load_mesh_netgen(no, m); }); break;
    case 2: missing<cartesian_mesh<T,2>>([&](auto& m) { return load_mesh_diskpp_cartesian(no, m); }); break; case 3: missing<cartesian_mesh<T,3>>([&](auto& m) { return load_mesh_diskpp_cartesian(no, m); }); break;
    case 4: missing<generic_mesh<T,2>>([&](auto& m) { return load_mesh_fvca5_2d(no, m); }); break; case 5: missing<generic_mesh<T,3>>([&](auto& m) { return load_mesh_fvca6_3d(no, m); }); break;
    case 6: missing<generic_mesh<T,2>>([&](auto& m) { return load_mesh_medit(no, m); }); break; case 7: missing<generic_mesh<T,3>>([&](auto& m) { return load_mesh_medit(no, m); }); break;
    case 8: missing<generic_mesh<T,2>>([&](auto& m) { return load_mesh_poly(no, m); }); break; case 9: missing<generic_mesh<T,3>>([&](auto& m) { return load_mesh_poly(no, m); }); break; } }
VP_H(dispatch) { int calls = 0; const char* no[] = {"/nonexistent/a.typ1", "/nonexistent/a.mesh2d", "/nonexistent/a.quad", "/nonexistent/a.mesh", "/nonexistent/a.hex", "/nonexistent/a.msh", "/nonexistent/a.unknown"}; int r = disk::dispatch_all_meshes(no[vp_pick("name", 0, 6)], [&](auto& m) { calls++; }); vp_check(r == 1 && calls == 0, "nothing is done for a file that cannot be loaded"); }
