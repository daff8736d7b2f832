// interval model of the star shaped hull of a set of elliptical outlines seen from a point
#ifndef HULLMODEL_HPP
#define HULLMODEL_HPP
#include "ellalpha.hpp"
struct HullModel
{
	std::vector<ref::Ell> prims;
	ref::V centre;
	bool inside = false; // nearest outline instead of the furthest
	ref::R min_radius = 0.5L;
	int resolution = 500;
	// radius in a direction, before sampling and smoothing
	ref::R raw(ref::R phi) const
	{
		ref::R best = -1;
		ref::V d{std::cos(phi), std::sin(phi), 0};
		for(auto& e : prims)
		{
			ref::P i = ref::inv(e.pose);
			ref::V a = i * centre, u = i.r * d, t = e.len();
			ref::V p{a.x / t.x, a.y / t.y, 0}, v{u.x / t.x, u.y / t.y, 0};
			ref::R A = ref::dot(v, v), B = ref::dot(p, v), C = ref::dot(p, p) - 1, D = B * B - A * C;
			if(D < 0) continue;
			for(ref::R s : {(-B - std::sqrt(D)) / A, (-B + std::sqrt(D)) / A})
				if(s > 0 && (best < 0 || (inside ? s < best : s > best))) best = s;
		}
		return std::max(min_radius, best);
	}
	struct I { ref::R lo, hi; };
	// range of the radius around a direction: the resolution of the hull
	I range(ref::R phi, ref::R samples = 3.2L) const
	{
		ref::R w = samples * 2 * ref::PI / resolution;
		I r{1e30L, -1};
		const int N = 48;
		for(int i = -N; i <= N; ++i) { ref::R x = raw(phi + w * i / N); r.lo = std::min(r.lo, x); r.hi = std::max(r.hi, x); }
		r.lo *= 0.998L;
		r.hi *= 1.002L;
		return r;
	}
	ref::R phi(ref::V x) const { return std::atan2(x.y - centre.y, x.x - centre.x); }
	ref::R radius(ref::V x) const { return ref::norm(ref::V{x.x - centre.x, x.y - centre.y, 0}); }
	// 1 inside, 0 outside, -1 not decided at this resolution
	int contains(ref::V x) const
	{
		I i = range(phi(x));
		ref::R r = radius(x);
		return r < i.lo ? 1 : r > i.hi ? 0 : -1;
	}
	I distance(ref::V x, ref::R m) const
	{
		I i = range(phi(x));
		ref::R r = radius(x);
		if(inside) return {std::max(min_radius, i.lo - m) / r, std::max(min_radius, i.hi - m) / r};
		return {r / (i.hi + m), r / (i.lo + m)};
	}
	// 1 closed, 0 open, -1 not decided
	int closed() const
	{
		int N = resolution * 2, run = 0, longest = 0;
		ref::R lowest = 1e30L;
		for(int i = 0; i < N + 40; ++i)
		{
			ref::R r = raw(2 * ref::PI * i / N);
			lowest = std::min(lowest, r);
			run = r < 1.14L * min_radius ? run + 1 : 0;
			longest = std::max(longest, run);
		}
		return lowest > 1.25L * min_radius ? 1 : longest > 16 ? 0 : -1;
	}
	// the outline is smooth around this direction: its unit normal
	bool smooth_normal(ref::R f, ref::V& n) const
	{
		ref::R w = 2 * ref::PI / resolution;
		auto at = [&](ref::R a) { ref::R r = raw(a); return ref::V{r * std::cos(a), r * std::sin(a), 0}; };
		ref::V t0 = ref::unit(at(f + 0.25L * w) - at(f - 0.25L * w));
		for(int k = -16; k < 16; ++k)
		{
			ref::V t = ref::unit(at(f + (k + 1) * 0.25L * w) - at(f + k * 0.25L * w));
			if(ref::dot(t, t0) < 0.997L) return false;
		}
		n = {t0.y, -t0.x, 0};
		return true;
	}
	// the centre is too close to an outline
	bool degenerate() const
	{
		for(auto& e : prims) { ref::R l = std::sqrt(e.planar(centre)); ref::V t = e.len(); if(std::fabs(l - 1) * std::min(t.x, t.y) < 0.02L) return true; }
		return false;
	}
};
inline void check_hull_queries(Ctx& c, const Obstacle& o, const HullModel& in, const HullModel& out, bool aggregate, const char* what)
{
	// directions all around, also where the angle wraps
	static const std::vector<ref::R> phis{-ref::PI, -3.1415L, -3.13L, -2.5L, -1.6L, -1.0L, -0.3L, -0.001L, 0, 0.02L, 0.7L, 1.5L, ref::PI / 2, 2.2L, 3.0L, 3.12L, 3.1414L, 3.14159L};
	for(auto& f : phis)
	{
		auto i = out.range(f);
		for(ref::R r : {0.35L * i.lo, 0.97L * i.lo, (i.lo + i.hi) / 2, 1.04L * i.hi, 3 * i.hi})
		{
			ref::V x = out.centre + ref::V{r * std::cos(f), r * std::sin(f), 0};
			int inside = out.contains(x);
			if(aggregate)
			{
				for(auto& e : out.prims) { ref::R l = e.planar(x); if(l < 0.9999L) inside = 1; else if(l < 1.0001L && inside == 0) inside = -1; }
			}
			E3 p = ev(x);
			if(inside >= 0) c.check(o.point_is_inside(p) == bool(inside), "membership", [&] { return fmt("%s: %s seen from %s is %s", what, str(x).c_str(), str(out.centre).c_str(), inside ? "inside but not reported" : "outside but reported inside"); });
			for(double m : {0.0, 0.3})
			{
				double g = dist_to(o, p, m);
				HullModel::I d;
				if(!aggregate) d = (in.inside ? in : out).distance(x, m);
				else if(inside == 1) d = in.distance(x, m);
				else if(inside == 0) d = out.distance(x, m);
				else { auto a = in.distance(x, m), b = out.distance(x, m); d = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }
				c.check(g >= d.lo * 0.999L && g <= d.hi * 1.001L, "distance", [&] { return fmt("%s: distance of %s seen from %s with margin %g is %.9g expected %.9Lg to %.9Lg", what, str(x).c_str(), str(out.centre).c_str(), m, g, d.lo, d.hi); });
			}
			Agent a = make_agent(x, {1, 0, 0}, 0.3);
			double g = o.compute_distance_to_agent(a), h = dist_to(o, p, 0.3);
			c.check(close(g, h, 1e-9 * (1 + std::fabs(g))), "agent-distance", [&] { return fmt("%s: %.9g to the agent and %.9g to its position", what, g, h); });
			E3 n = o.compute_normal_to_agent(a);
			c.check(std::fabs(n.norm() - 1) < 1e-9 && std::fabs(n(2)) < 1e-9, "unit-normal", [&] { return fmt("%s: normal %s at %s", what, str(n).c_str(), str(x).c_str()); });
			ref::V w;
			const HullModel& q = !aggregate ? (in.inside ? in : out) : inside == 1 ? in : out;
			if(inside >= 0 && q.smooth_normal(f, w))
				c.check(std::fabs(ref::dot(rv(n), w)) > 0.98L, "normal", [&] { return fmt("%s: normal %s at %s expected along %s", what, str(n).c_str(), str(x).c_str(), str(w).c_str()); });
		}
	}
}
#endif
