// C14 the chord cut by a line, and the reference position derived from the heading of an agent
#include "ellalpha.hpp"

struct Chord { int hit; ref::V p, q; };
// line through x along d, in the plane of the obstacle
static Chord chord(const ref::Ell& l, ref::V x, ref::V y)
{
	ref::V a = ref::inv(l.pose) * x, b = ref::inv(l.pose) * y, t = l.len();
	ref::V u{a.x / t.x, a.y / t.y, 0}, v{(b.x - a.x) / t.x, (b.y - a.y) / t.y, 0};
	ref::R vv = ref::dot(v, v);
	Chord c{0, {}, {}};
	if(vv == 0) return c;
	ref::V n{-v.y, v.x, 0};
	ref::R off = ref::dot(u, n) / std::sqrt(vv); // distance of the line to the centre in units of the ellipse
	if(std::fabs(std::fabs(off) - 1) < 1e-6L) { c.hit = -1; return c; }
	if(std::fabs(off) > 1) return c;
	c.hit = 1;
	ref::R mid = -ref::dot(u, v) / vv, half = std::sqrt(1 - off * off) / std::sqrt(vv);
	auto at = [&](ref::R s) { return l.pose * ref::V{a.x + s * (b.x - a.x), a.y + s * (b.y - a.y), 0}; };
	c.p = at(mid - half);
	c.q = at(mid + half);
	return c;
}
static void lines(Ctx& c)
{
	ESpec s = pick_spec(c, true);
	auto e = s.make("e");
	ref::Ell l = s.ell();
	ref::V t = l.len();
	if(c.recording) c.note(s.str());
	c.state(hash_of(s));
	c.transition();
	Obstacle& o = *e;
	static const ref::R starts[6][2] = {{0, 0}, {0.3L, -0.4L}, {2, 0.5L}, {-3, -0.9L}, {1.4L, 1.4L}, {0, 1}};
	for(auto& st : starts)
		for(auto& d : planar_directions())
			for(ref::R step : {1.0L, 0.01L, 2e-4L, 70.0L})
			{
				ref::V x = rv(ev(l.pose * ref::V{st[0] * t.x, st[1] * t.y, 0})), y = rv(ev(x + step * ref::V{d.x * t.x, d.y * t.y, 0}));
				Chord w = chord(l, x, y);
				if(w.hit < 0) continue;
				auto r = o.compute_interesection_points(ev(x), ev(y));
				auto where = [&] { return fmt("line from %s to %s", str(x).c_str(), str(y).c_str()); };
				c.check(r.first == bool(w.hit), "hit", [&] { return where() + (w.hit ? " is said to miss" : " is said to hit"); });
				c.outcome(uint64_t(w.hit));
				if(!w.hit) continue;
				ref::R tol = 1e-5L * ref::norm(t) + 1e-10L * ref::norm(l.pose.t) / std::min(step, std::min(t.x, t.y));
				if(tol > 0.01L * std::min(t.x, t.y)) continue;
				E3 p = r.second.first, q = r.second.second;
				c.check((close(rv(p), w.p, tol) && close(rv(q), w.q, tol)) || (close(rv(p), w.q, tol) && close(rv(q), w.p, tol)), "points", [&] { return where() + " cuts at " + str(p) + " and " + str(q) + " expected " + str(w.p) + " and " + str(w.q); });
			}
}
static void headings(Ctx& c)
{
	ESpec s = pick_spec(c, true);
	if(ref::norm(s.pos) > 100) return;
	ref::Ell l = s.ell();
	ref::V t = l.len();
	if(std::min(t.x, t.y) < 0.05L) return;
	auto e = s.make("e");
	c.state(hash_of(s));
	static const ref::R starts[5][2] = {{0.2L, 0.1L}, {3, 0.4L}, {-2, 2}, {0, -1.5L}, {50, 3}};
	ref::V refp = l.pose * ref::V{0.2L * t.x, 0.1L * t.y, 0};
	for(auto& st : starts)
		for(auto& d : planar_directions())
			for(int z = 0; z < 5; ++z)
			{
				ref::V x = l.pose * ref::V{st[0] * t.x, st[1] * t.y, z == 1 ? 2.0L : 0.0L}, v = 0.7L * d;
				if(z == 1) v.z = -0.3L;
				if(z == 2) v = ref::V{0, 0, 0};
				if(z == 3) v = 1e-4L * d;
				if(z == 4) v = 40 * d;
				Agent a = make_agent(x, v, 0.1);
				x = rv(a.get_position());
				v = rv(a.get_linear_velocity());
				Chord w = chord(l, x, x + v);
				if(w.hit < 0) continue;
				e->set_reference_position(ev(refp));
				e->shift_reference_point(a);
				c.transition();
				ref::V want = w.hit ? 0.5L * (w.p + w.q) : rv(ev(refp));
				E3 got = e->get_reference_position();
				ref::R tol = w.hit ? 1e-5L * (1 + ref::norm(t)) + 1e-10L * (1 + ref::norm(l.pose.t)) / std::min(1.0L, ref::norm(v)) : 0;
				c.check(close(rv(got), want, tol), "reference", [&] { return fmt("agent at %s heading %s: reference %s expected %s", str(x).c_str(), str(v).c_str(), str(got).c_str(), str(want).c_str()); });
				if(w.hit)
				{
					c.check(l.planar(rv(got)) < 1 + 1e-6L, "reference-inside", [&] { return str(got); });
					c.check(std::fabs(rv(got).z - l.pose.t.z) < 1e-6L, "reference-height", [&] { return str(got); });
				}
			}
	c.check(same(e->get_position(), ev(s.pos)) && std::fabs(qnorm(e->get_orientation()) - 1) < 1e-9, "position-kept");
}
static void live(Ctx& c)
{
	Live v;
	int n = mc::thorough() ? 4 : 3;
	for(int i = 0; i < n; ++i)
	{
		v.op(c, c.pick(Live::NOPS));
		ref::Ell l = v.s.ell();
		for(auto& d : planar_directions())
		{
			ref::V x = l.pose.t + ref::V{0.1L, -0.05L, 0};
			Chord w = chord(l, x, x + d);
			if(w.hit < 0) continue;
			Obstacle& o = *v.e;
			auto r = o.compute_interesection_points(ev(x), ev(x + d));
			c.check(r.first == bool(w.hit) && (!w.hit || (close(rv(r.second.first), w.p, 1e-6L) && close(rv(r.second.second), w.q, 1e-6L)) || (close(rv(r.second.first), w.q, 1e-6L) && close(rv(r.second.second), w.p, 1e-6L))), "live-points", [&] { return "line along " + str(d); });
		}
		c.state(hash_of(v.s));
	}
}
MC_MAIN("C14", { {"lines", lines, 3}, {"headings", headings, 3}, {"live", live, 2} })
