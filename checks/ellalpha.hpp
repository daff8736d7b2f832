// alphabets of ellipsoidal obstacles
#ifndef ELLALPHA_HPP
#define ELLALPHA_HPP
#include "lib.hpp"
inline const std::vector<ref::V>& axes3()
{
	static std::vector<ref::V> v{{1, 1, 1}, {2, 1, 0.5L}, {0.1L, 0.2L, 5}, {10, 8, 6}, {0.3L, 4, 0}, {1, 1.5L, 5e-5L}, {1.2L, 1, 2e-4L}, {100, 50, 20}};
	return v;
}
inline const std::vector<ref::V>& margins3()
{
	static std::vector<ref::V> v{{0, 0, 0}, {0.5L, 0.5L, 0.5L}, {0.1L, 0.4L, 0.9L}, {3, 0, 0}};
	return v;
}
struct Curv { int c[3]; };
inline const std::vector<Curv>& curvs()
{
	static std::vector<Curv> v{{{1, 1, 1}}, {{2, 2, 2}}, {{3, 1, 2}}, {{1, 4, 1}}, {{5, 5, 5}}};
	return v;
}
inline ESpec pick_spec(Ctx& c, bool planar = false)
{
	ESpec s;
	s.pos = c.of(positions());
	s.rot = planar ? c.of(yaws()) : c.of(rotations());
	s.axes = c.of(axes3());
	s.margin = c.of(margins3());
	const Curv& k = c.of(curvs());
	s.c0 = k.c[0]; s.c1 = k.c[1]; s.c2 = k.c[2];
	return s;
}
inline uint64_t hash_of(const ESpec& s)
{
	mc::Hash h;
	for(int i = 0; i < 3; ++i) h.d(double(s.pos[i])).d(double(s.axes[i])).d(double(s.margin[i])).d(double(s.rot.axis[i]));
	h.d(double(s.rot.angle)).u(uint64_t(s.c0)).u(uint64_t(s.c1)).u(uint64_t(s.c2));
	return h;
}
// an ellipsoid that is modified through its setters, together with the reference that follows
static const char* const LIVE_NAME = "renamed_to_something_much_longer_than_the_names_that_are_used_everywhere_else_in_these_examples_0123456789";
struct Live
{
	ESpec s;
	std::shared_ptr<Ellipsoid> e;
	Live() { s.axes = {1, 1, 1}; s.own_ref = true; // a moved obstacle keeps its reference position until another one is given
		 e = std::make_shared<Ellipsoid>("live", State(E3(0, 0, 0)), E3(0, 0, 0), A3(0.1, 0.4, 0.2)); s.margin = {0.1L, 0.4L, 0.2L}; }
	static const int NOPS = 12;
	void op(Ctx& c, int k)
	{
		c.transition();
		switch(k)
		{
		case 0: s.pos = {3, -1, 0}; e->set_position(ev(s.pos)); c.note("position"); break;
		case 1: s.pos = {-20, 14, 0.5L}; e->set_position(-20, 14, 0.5); c.note("coordinates"); break;
		case 2: s.rot = yaws()[2]; e->set_orientation(Q(-eq(s.rot).w(), -eq(s.rot).x(), -eq(s.rot).y(), -eq(s.rot).z())); c.note("yaw"); break;
		case 3: s.rot = {{0, 0, 1}, 2.8L}; e->set_orientation(Q(-4 * eq(s.rot).w(), -4 * eq(s.rot).x(), -4 * eq(s.rot).y(), -4 * eq(s.rot).z())); c.note("yaw, unnormalised"); break;
		case 4: s.pos = {7, 7, -1}; s.rot = yaws()[7]; e->set_pose(Pose(ev(s.pos), eq(s.rot))); c.note("pose"); break;
		case 5: s.axes = {2, 0.5L, 1}; e->set_axis_lengths(ea(s.axes)); c.note("axes"); break;
		case 6: s.axes = {0.2L, 3, 0}; e->set_axis_lengths(ea(s.axes)); c.note("axes b"); break;
		case 7: s.c0 = 2; s.c1 = 3; s.c2 = 1; e->set_curvature_factor(A3(2, 3, 1)); c.note("curvature"); break;
		case 8: s.c0 = s.c1 = s.c2 = 1; e->set_curvature_factor(A3(1, 1, 1)); c.note("curvature 1"); break;
		case 9: e->set_reference_position(E3(0.5, 0.5, 0)); s.own_ref = true; s.refpos = {0.5L, 0.5L, 0}; c.note("reference"); break;
		case 10: e->set_linear_velocity(E3(1, 2, 0)); e->set_angular_velocity(E3(0, 0, 1)); e->set_name(LIVE_NAME); c.note("velocities and name"); break;
		case 11: { auto f = std::make_shared<Ellipsoid>(*e); e = f; c.note("replaced by a copy"); break; }
		}
	}
	// a position for queries, changed history by history
	std::vector<ref::V> around() const
	{
		std::vector<ref::V> v;
		ref::Ell l = s.ell();
		for(auto& d : planar_directions()) { v.push_back(l.at_level(d, 0.3L)); v.push_back(l.at_level(d, 1.7L)); }
		v.push_back({0, 0, 0});
		v.push_back({1, 5, 2});
		return v;
	}
};
#endif
