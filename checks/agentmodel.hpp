// model of an agent: its attributes and, derived from them, its envelope
#ifndef AGENTMODEL_HPP
#define AGENTMODEL_HPP
#include "lib.hpp"
struct AgentModel
{
	ref::P pose;
	ref::V vel, ang;
	double margin = 0;
};
inline void check_agent(Ctx& c, const Agent& a, const AgentModel& m, const char* what)
{
	auto w = [&](const std::string& s) { return std::string(what) + ": " + s; };
	ref::R tol = 1e-9L * (1 + ref::norm(m.pose.t));
	c.check(close(rv(a.get_position()), m.pose.t, tol), "agent-position", [&] { return w("position " + str(a.get_position()) + " expected " + str(m.pose.t)); });
	c.check(close(mat(a.get_orientation()), m.pose.r, 1e-9L), "agent-orientation", [&] { return w("orientation " + str(a.get_orientation())); });
	c.check(close(rv(a.get_linear_velocity()), m.vel, 0), "agent-velocity", [&] { return w("velocity " + str(a.get_linear_velocity()) + " expected " + str(m.vel)); });
	c.check(close(rv(a.get_angular_velocity()), m.ang, 0), "agent-angular", [&] { return w("angular velocity " + str(a.get_angular_velocity())); });
	c.check(a.get_safety_margin() == m.margin, "agent-margin", [&] { return w(fmt("margin %g expected %g", a.get_safety_margin(), m.margin)); });
	// the envelope: half a second ahead along the unit heading, at least 0.1 wide
	ref::V h = ref::unit(m.vel);
	ref::V centre = m.pose.t + 0.5L * h;
	ref::R width = std::max<ref::R>(0.1L, m.margin);
	const Ellipsoid& e = envelope_of(a);
	c.check(close(rv(e.get_position()), centre, tol), "envelope-position", [&] { return w("envelope at " + str(e.get_position()) + " expected " + str(centre)); });
	c.check(close(rv(e.get_reference_position()), centre, tol), "envelope-reference", [&] { return w("envelope reference at " + str(e.get_reference_position()) + " expected " + str(centre)); });
	ref::V axes{0.5L * ref::norm(h) + width, width, width};
	c.check(close(rv(e.get_axis_lengths()), axes, 1e-9L * (1 + width + ref::norm(m.pose.t))), "envelope-axes", [&] { return w("envelope axes " + str(e.get_axis_lengths()) + " expected " + str(axes)); });
	ref::R theta = std::atan2(h.y, h.x);
	c.check(close(mat(e.get_orientation()), ref::yaw(theta), 1e-9L), "envelope-orientation", [&] { return w("envelope orientation " + str(e.get_orientation()) + fmt(" expected yaw %.9Lg", theta)); });
	c.check(close(rv(e.get_safety_margin()), {0, 0, 0}, 0), "envelope-margin", [&] { return w("envelope margin " + str(e.get_safety_margin())); });
	c.check(close(rv(e.get_curvature_factor()), {1, 1, 1}, 0), "envelope-curvature", [&] { return w("envelope curvature " + str(e.get_curvature_factor())); });
	c.check(e.get_type() == "Ellipsoid", "envelope-type");
	mc::Hash hh;
	hs(hh, a.get_position());
	hs(hh, a.get_orientation());
	hs(hh, a.get_linear_velocity());
	hs(hh, a.get_angular_velocity());
	hh.d(m.margin);
	c.state(hh);
}
inline const std::vector<ref::V>& agent_velocities()
{
	static std::vector<ref::V> v{{1, 0, 0}, {0, 0, 0}, {-3, 4, 0}, {0, -0.02L, 0}, {0.3L, -0.2L, 0.7L}, {0, 0, -2}, {-5, 1e-6L, 0}, {-5, -1e-6L, 0}};
	return v;
}
inline const std::vector<double>& agent_margins()
{
	static std::vector<double> v{0, 0.05, 0.1, 0.3, 2.5, 40};
	return v;
}
#endif
