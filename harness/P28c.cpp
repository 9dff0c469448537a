//@bound complex tangential interpolation: tetrahedron, box and prism, degree 0..1, every complex multiple of each monomial field
//@flags -fcx-limited-range
//@link jb
//@link triangle
#include "hho.hpp"
#include "diskpp/methods/implementation_hho/curl.hpp"
using namespace vp;
typedef Eigen::Matrix<T,3,1> V3d;
static disk::hho_degree_info hdi(size_t cd, size_t fd, size_t rd) { return disk::hho_degree_info(disk::priv::hdi_named_args{.rd = rd, .cd = cd, .fd = fd}); }
VP_H(P28_complex_projection) { int k = vp_pick("cell",0,2), fd = vp_pick("face",0,1), comp = vp_pick("component",0,2), mon = vp_pick("monomial",0,3); if (mon && !fd) return; T re = vp_real("re",-2,2), im = vp_real("im",-2,2);
  auto f = [&](const P3& y) { V3d v(0,0,0); v(comp) = mon == 0 ? T(1) : mon == 1 ? y.x() : mon == 2 ? y.y() : y.z(); return v; };
  with_cell3(k, [&](auto& m, auto cl) { auto h = hdi(fd,fd,fd+1); auto g = [&](const P3& y) { V3d v = f(y); Eigen::Matrix<std::complex<T>,3,1> u; for (int a = 0; a < 3; a++) u(a) = std::complex<T>(re*v(a), im*v(a)); return u; }; auto I = disk::maxwell_prj(m, cl, h, g); Vec a = disk::project_tangent(m, cl, h, f, 2); vp_check(I.size() == a.size(), "size"); for (int i = 0; i < a.size(); i++) { vp_close(I(i).real(), re*a(i), 1e-7, "real part of the complex projection"); vp_close(I(i).imag(), im*a(i), 1e-7, "imaginary part of the complex projection"); } }); }
