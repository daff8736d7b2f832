// coordinate free reference of the modulation of a velocity
#ifndef MODMODEL_HPP
#define MODMODEL_HPP
#include "ellalpha.hpp"
// what an obstacle looks like from the agent
struct Seen
{
	ref::R gamma = 1;
	ref::V n; // world normal of the level set (either sign)
	ref::V reference, pos, vel, angvel;
};
inline Seen see(const ref::Ell& e, ref::V x, ref::R margin)
{
	Seen s;
	s.gamma = e.gamma(x, margin);
	s.n = e.normal_world(x, margin);
	s.reference = e.reference;
	s.pos = e.pose.t;
	s.vel = e.vel;
	s.angvel = e.angvel;
	return s;
}
// an obstacle whose outline is judged elsewhere: its own answers are taken
inline Seen see(const Obstacle& o, const Agent& a)
{
	Seen s;
	s.gamma = o.compute_distance_to_agent(a);
	s.n = mat(o.get_orientation()) * rv(o.compute_normal_to_agent(a));
	s.reference = rv(o.get_reference_position());
	s.pos = rv(o.get_position());
	s.vel = rv(o.get_linear_velocity());
	s.angvel = rv(o.get_angular_velocity());
	return s;
}
inline ref::R delta(ref::R gamma, ref::R reactivity = 1) { return gamma <= 1 ? 1 : std::pow(gamma, -1 / reactivity); }
// how much errors of the inputs are amplified: the reference direction is nearly tangent
inline ref::R alignment(const Seen& s, ref::V x) { return std::fabs(ref::dot(ref::unit(s.n), ref::unit(x - s.reference))); }
// the component along the direction to the reference is scaled by 1-d, the tangent ones by 1+d
inline ref::V modulated(const Seen& s, ref::V x, ref::V v)
{
	ref::R d = delta(s.gamma);
	ref::V r = ref::unit(x - s.reference);
	return (1 + d) * v - (2 * d * ref::dot(s.n, v) / ref::dot(s.n, r)) * r;
}
inline std::vector<ref::R> weights_of(const std::vector<ref::R>& g, ref::R critical, ref::R power)
{
	std::vector<ref::R> w(g.size(), 0);
	ref::R n = 0;
	for(size_t i = 0; i < g.size(); ++i) if(g[i] <= critical) { w[i] = 1; ++n; }
	if(n == 0) for(size_t i = 0; i < g.size(); ++i) n += w[i] = std::pow(g[i] - critical, -power);
	for(auto& x : w) x /= n;
	return w;
}
// velocity of the obstacles as felt by the agent
inline ref::V carried(const std::vector<Seen>& s, const std::vector<ref::R>& w, ref::V x)
{
	ref::V o;
	for(size_t i = 0; i < s.size(); ++i) o = o + (w[i] * std::exp(1 - std::max<ref::R>(1, s[i].gamma))) * (s[i].vel + ref::cross(s[i].angvel, x - s[i].pos));
	return o;
}
inline ref::V modulate(const std::vector<Seen>& s, ref::V x, ref::V v, ref::R critical = 1, ref::R power = 2)
{
	std::vector<ref::R> g;
	for(auto& i : s) g.push_back(i.gamma);
	auto w = weights_of(g, critical, power);
	ref::V o = carried(s, w, x), rel = v - o, u = ref::unit(rel), mean;
	if(ref::norm(rel) == 0) return o;
	ref::R speed = 0;
	for(size_t i = 0; i < s.size(); ++i)
	{
		ref::V m = modulated(s[i], x, rel);
		speed += w[i] * ref::norm(m);
		ref::V d = ref::unit(m), t = d - ref::dot(d, u) * u;
		if(ref::norm(t) > 0) mean = mean + (w[i] * std::atan2(ref::norm(t), ref::dot(d, u))) * ref::unit(t);
	}
	ref::R a = ref::norm(mean);
	ref::V dir = a > 0 ? std::cos(a) * u + (std::sin(a) / a) * mean : u;
	return speed * dir + o;
}
#endif
