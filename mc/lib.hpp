// The public API under test, conversions, and the alphabets shared by the checks.
#ifndef LIB_HPP
#define LIB_HPP
#include "DynamicObstacleAvoidance/Modulation.hpp"
#include "DynamicObstacleAvoidance/Exceptions/ObstacleAlreadyExistsException.hpp"
#include "DynamicObstacleAvoidance/Exceptions/ObstacleNotInEnvironmentException.hpp"
#include "mc.hpp"
#include "ref.hpp"

using namespace DynamicObstacleAvoidance;
typedef Eigen::Vector3d E3;
typedef Eigen::Quaterniond Q;
typedef Eigen::Array3d A3;
typedef std::deque<std::shared_ptr<Obstacle>> List;
using mc::Ctx;
using mc::fmt;

template <class T> inline ref::V rv(const T& v) { return {ref::R(v(0)), ref::R(v(1)), ref::R(v(2))}; }
inline E3 ev(ref::V v) { return E3(double(v.x), double(v.y), double(v.z)); }
inline A3 ea(ref::V v) { return A3(double(v.x), double(v.y), double(v.z)); }
inline std::string str(ref::V v) { return fmt("(%.9Lg %.9Lg %.9Lg)", v.x, v.y, v.z); }
inline std::string str(const E3& v) { return str(rv(v)); }
inline std::string str(const A3& v) { return str(rv(v)); }
inline bool close(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
inline bool close(ref::V a, ref::V b, ref::R tol) { return std::fabs(a.x - b.x) <= tol && std::fabs(a.y - b.y) <= tol && std::fabs(a.z - b.z) <= tol; }
inline bool close(const E3& a, const E3& b, double tol) { return close(rv(a), rv(b), tol); }
inline bool same(const E3& a, const E3& b) { return a(0) == b(0) && a(1) == b(1) && a(2) == b(2); }

struct Rot { ref::V axis; ref::R angle; };
inline Q eq(const Rot& r)
{
	ref::V a = ref::unit(r.axis);
	return Q(Eigen::AngleAxisd(double(r.angle), ev(a)));
}
inline ref::M rm(const Rot& r) { return ref::rot(r.axis, r.angle); }

// real object for a reference ellipsoid (pose rotation given separately to avoid going through the matrix)
struct ESpec
{
	ref::V pos;
	Rot rot{{0, 0, 1}, 0};
	ref::V axes{1, 1, 1}, margin{0, 0, 0};
	int c0 = 1, c1 = 1, c2 = 1;
	bool own_ref = false;
	ref::V refpos;
	ref::V vel, angvel;
	ref::Ell ell() const
	{
		ref::Ell e;
		e.pose = {pos, rm(rot)};
		e.axes = axes;
		e.margin = margin;
		e.reference = own_ref ? refpos : pos;
		e.curv[0] = c0; e.curv[1] = c1; e.curv[2] = c2;
		e.vel = vel;
		e.angvel = angvel;
		return e;
	}
	std::shared_ptr<Ellipsoid> make(const std::string& name) const
	{
		State s(ev(pos), eq(rot), ev(vel), ev(angvel));
		auto p = std::make_shared<Ellipsoid>(name, s, ev(own_ref ? refpos : pos), ea(margin));
		p->set_axis_lengths(ea(axes));
		p->set_curvature_factor(A3(c0, c1, c2));
		return p;
	}
	std::string str() const
	{
		return fmt("ellipsoid pos %s axis %s angle %.6Lg axes %s margin %s curvature %d %d %d", ::str(pos).c_str(), ::str(rot.axis).c_str(), rot.angle, ::str(axes).c_str(), ::str(margin).c_str(), c0, c1, c2)
			+ (own_ref ? " reference " + ::str(refpos) : "") + " velocity " + ::str(vel) + " angular " + ::str(angvel);
	}
};
inline ESpec espec(ref::V pos, ref::R yaw, ref::V axes, ref::V margin = {0, 0, 0}) { ESpec s; s.pos = pos; s.rot = {{0, 0, 1}, yaw}; s.axes = axes; s.margin = margin; return s; }

inline Agent make_agent(ref::V pos, ref::V vel, double margin)
{
	Agent a(State(ev(pos)), margin);
	a.set_linear_velocity(ev(vel));
	return a;
}

// 26 lattice directions plus some generic ones
inline const std::vector<ref::V>& directions()
{
	static std::vector<ref::V> d;
	if(d.empty())
	{
		for(int x = -1; x <= 1; ++x) for(int y = -1; y <= 1; ++y) for(int z = -1; z <= 1; ++z) if(x || y || z) d.push_back({ref::R(x), ref::R(y), ref::R(z)});
		d.push_back({0.3L, -0.8L, 0.2L});
		d.push_back({-0.9L, 0.1L, -0.35L});
		d.push_back({0.05L, 0.02L, 1});
		d.push_back({1e-6L, 1, 0});
		d.push_back({-1, 1e-3L, 2e-3L});
	}
	return d;
}
inline const std::vector<ref::V>& planar_directions()
{
	static std::vector<ref::V> d;
	if(d.empty()) for(int k = 0; k < 16; ++k) d.push_back({std::cos(2 * ref::PI * k / 16), std::sin(2 * ref::PI * k / 16), 0});
	return d;
}

// alphabets
inline const std::vector<ref::V>& positions()
{
	static std::vector<ref::V> p{{0, 0, 0}, {1, 2, 3}, {-40, 25, -7}, {1000, -2000, 50}, {-0.3L, 0.2L, 0.1L}};
	return p;
}
inline const std::vector<Rot>& yaws()
{
	static std::vector<Rot> r{{{0, 0, 1}, 0}, {{0, 0, 1}, 0.3L}, {{0, 0, 1}, -2.8L}, {{0, 0, 1}, ref::PI}, {{0, 0, 1}, 3.13L}, {{0, 0, 1}, ref::PI / 2}, {{0, 0, 1}, -ref::PI / 2}, {{0, 0, 1}, -0.9L}, {{0, 0, 1}, -3.1L}, {{0, 0, 1}, 0.004L}};
	return r;
}
inline const std::vector<Rot>& rotations()
{
	static std::vector<Rot> r;
	if(r.empty())
	{
		r = yaws();
		r.push_back({{1, 0, 0}, 0.7L});
		r.push_back({{0, 1, 0}, ref::PI / 2});
		r.push_back({{1, 1, 1}, 2.5L});
		r.push_back({{-0.3L, 0.8L, 0.2L}, 1.9L});
		r.push_back({{1, 0, 0}, ref::PI});
		r.push_back({{0.1L, -0.2L, -1}, 3.0L});
	}
	return r;
}
inline const Ellipsoid& envelope_of(const Agent& a) { return dynamic_cast<const Ellipsoid&>(a.get_envelope()); }

// rotation matrix of the stored quaternion, taken as it is
inline ref::M mat(const Q& q)
{
	ref::M r;
	ref::R w = q.w(), x = q.x(), y = q.y(), z = q.z();
	r.m[0][0] = w * w + x * x - y * y - z * z; r.m[0][1] = 2 * (x * y - w * z); r.m[0][2] = 2 * (x * z + w * y);
	r.m[1][0] = 2 * (x * y + w * z); r.m[1][1] = w * w - x * x + y * y - z * z; r.m[1][2] = 2 * (y * z - w * x);
	r.m[2][0] = 2 * (x * z - w * y); r.m[2][1] = 2 * (y * z + w * x); r.m[2][2] = w * w - x * x - y * y + z * z;
	return r;
}
inline bool close(const ref::M& a, const ref::M& b, ref::R tol)
{
	for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) if(!(std::fabs(a.m[i][j] - b.m[i][j]) <= tol)) return false;
	return true;
}
inline std::string str(const Q& q) { return fmt("(w %.12g x %.12g y %.12g z %.12g)", q.w(), q.x(), q.y(), q.z()); }
inline double qnorm(const Q& q) { return std::sqrt(q.w() * q.w() + q.x() * q.x() + q.y() * q.y() + q.z() * q.z()); }
inline mc::Hash& hs(mc::Hash& h, const E3& v) { return h.d(v(0)).d(v(1)).d(v(2)); }
inline mc::Hash& hs(mc::Hash& h, const Q& q) { return h.d(q.w()).d(q.x()).d(q.y()).d(q.z()); }
inline double dist_to(const Obstacle& o, const E3& x, double margin = 0) { return o.compute_distance_to_point(x, margin); }
inline double dist_to(const Obstacle& o, const E3& x, const A3& margin) { return o.compute_distance_to_point(x, margin); }
#endif
