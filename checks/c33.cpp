// C33 obstacles of a user's own kind count by their own answers
#include "modmodel.hpp"
#include <memory>
typedef std::pair<bool, std::pair<E3, E3>> Chord;

// derived from the general obstacle: all geometry comes from an ellipsoid that is not visible to the library
struct Own : Obstacle
{
	mutable Ellipsoid in;
	mutable int asked = 0;
	// some have a type of their own, others none
	explicit Own(const Ellipsoid& e) : Obstacle(e.get_name(), e.get_state(), e.get_reference_position(), e.get_safety_margin()), in(e) { if(e.get_name() != "b") set_type("Own"); }
	using Obstacle::compute_distance_to_point;
	E3 compute_normal_to_agent(const Agent& a) const override { ++asked; return in.compute_normal_to_agent(a); }
	double compute_distance_to_point(const E3& p, const A3& m) const override { ++asked; return in.compute_distance_to_point(p, m); }
	bool is_intersecting_ellipsoid(const Ellipsoid& o) const override { ++asked; return in.is_intersecting(o); }
	Eigen::MatrixXd sample_from_parameterization(unsigned int n, bool m) const override { return in.sample_from_parameterization(n, m); }
	bool point_is_inside(const E3& p) const override { ++asked; return in.point_is_inside(p); }
	E3 compute_repulsion_vector(const Agent& a) const override { ++asked; return in.compute_repulsion_vector(a); }
	Chord compute_interesection_points(const E3& a, const E3& b) override { ++asked; return in.compute_interesection_points(a, b); }
	void set_reference_position(const E3& p) override { Obstacle::set_reference_position(p); in.set_reference_position(p); }
	std::ostream& print(std::ostream& os) const override { return os << "<own " << get_name() << ">"; }
};
// derived from the ellipsoid: outline as it is, but levels of another curvature
struct Other : Ellipsoid
{
	Ellipsoid in;
	explicit Other(const Ellipsoid& e) : Ellipsoid(e), in(e) { set_curvature_factor(A3(1, 1, 1)); }
	E3 compute_normal_to_agent(const Agent& a) const override { return in.compute_normal_to_agent(a); }
	double compute_distance_to_point(const E3& p, const A3& m) const override { return in.compute_distance_to_point(p, m); }
	void set_reference_position(const E3& p) override { Ellipsoid::set_reference_position(p); in.set_reference_position(p); }
	std::ostream& print(std::ostream& os) const override { return os << "<other " << get_name() << ">"; }
};
// derived from the ellipsoid, with all geometry of its own: what the base class would answer is wrong
struct Full : Ellipsoid
{
	Ellipsoid in;
	bool closed = true;
	explicit Full(const Ellipsoid& e) : Ellipsoid(e), in(e) { set_axis_lengths(e.get_axis_lengths() * A3(0.3, 2.5, 1.7)); set_curvature_factor(A3(3, 1, 1)); }
	using Obstacle::compute_distance_to_point;
	E3 compute_normal_to_agent(const Agent& a) const override { return in.compute_normal_to_agent(a); }
	double compute_distance_to_point(const E3& p, const A3& m) const override { return in.compute_distance_to_point(p, m); }
	bool is_intersecting_ellipsoid(const Ellipsoid& o) const override { return in.is_intersecting(o); }
	Eigen::MatrixXd sample_from_parameterization(unsigned int n, bool m) const override { return in.sample_from_parameterization(n, m); }
	bool point_is_inside(const E3& p) const override { return in.point_is_inside(p); }
	bool is_closed() const override { return closed; }
	E3 compute_repulsion_vector(const Agent& a) const override { return in.compute_repulsion_vector(a); }
	Chord compute_interesection_points(const E3& a, const E3& b) override { return in.compute_interesection_points(a, b); }
	void set_reference_position(const E3& p) override { Ellipsoid::set_reference_position(p); in.set_reference_position(p); }
	std::ostream& print(std::ostream& os) const override { return os << "<full " << get_name() << ">"; }
};
// a place enclosed by walls: answers as a group that is not visible to the library
struct Cage : Obstacle
{
	std::shared_ptr<Aggregate> in;
	explicit Cage(const std::shared_ptr<Aggregate>& g) : Obstacle("cage", g->get_state(), g->get_reference_position(), g->get_safety_margin()), in(g) { set_type("Cage"); }
	using Obstacle::compute_distance_to_point;
	E3 compute_normal_to_agent(const Agent& a) const override { return in->compute_normal_to_agent(a); }
	double compute_distance_to_point(const E3& p, const A3& m) const override { return in->compute_distance_to_point(p, m); }
	bool is_intersecting_ellipsoid(const Ellipsoid& o) const override { return o.is_intersecting(*in); }
	bool point_is_inside(const E3& p) const override { return in->point_is_inside(p); }
	bool is_closed() const override { return in->is_closed(); }
	E3 compute_repulsion_vector(const Agent& a) const override { return in->compute_repulsion_vector(a); }
};
// half plane: everything behind a straight line is forbidden
struct Wall : Obstacle
{
	ref::V n, through;
	double width;
	E3 push;
	Wall(const std::string& name, ref::V at, ref::R yaw, double width) : Obstacle(name, State(ev(at), eq({{0, 0, 1}, yaw}))), through(at), width(width), push(0, 0, 0)
	{
		set_type("Wall");
		n = {std::cos(yaw), std::sin(yaw), 0};
		Obstacle::set_reference_position(ev(at - 1000 * n));
	}
	using Obstacle::compute_distance_to_point;
	double compute_distance_to_point(const E3& p, const A3& m) const override { return std::max(1e-3, 1 + (double(ref::dot(rv(p) - through, n)) - m(0)) / width); }
	E3 compute_normal_to_agent(const Agent&) const override { return E3(1, 0, 0); } // in the frame of the wall
	bool point_is_inside(const E3& p) const override { return ref::dot(rv(p) - through, n) < 0; }
	E3 compute_repulsion_vector(const Agent&) const override { return push; }
};
// a room with straight sides
struct Room : Obstacle
{
	double half;
	bool closed;
	Room(const std::string& name, E3 at, double half, bool closed) : Obstacle(name, State(at)), half(half), closed(closed) { set_type("Room"); }
	bool point_is_inside(const E3& p) const override { return (p - get_position()).cwiseAbs().maxCoeff() < half; }
	bool is_closed() const override { return closed; }
};

static std::vector<ESpec> pool()
{
	std::vector<ESpec> v;
	ESpec s = espec({3, 0.4L, 0}, 0.5L, {1.5L, 0.8L, 1}, {0.2L, 0.2L, 0.2L});
	s.vel = {-0.3L, 0.1L, 0};
	v.push_back(s);
	s = espec({-1, 2.5L, 0}, 0, {1, 1, 1});
	s.angvel = {0, 0, 0.4L};
	s.own_ref = true;
	s.refpos = {-1.2L, 2.7L, 0};
	v.push_back(s);
	s = espec({0.5L, -4, 0}, -1, {2.5L, 0.6L, 2}, {0.1L, 0.3L, 0});
	s.c0 = s.c1 = 2;
	v.push_back(s);
	v.push_back(espec({8, -1, 0}, 2, {2, 2, 2}, {0.5L, 0, 0}));
	return v;
}
static std::shared_ptr<Obstacle> as(const ESpec& s, const std::string& n, int kind)
{
	auto e = s.make(n);
	if(kind == 1) return std::make_shared<Own>(*e);
	if(kind == 2) return std::make_shared<Other>(*e);
	if(kind == 3) return std::make_shared<Full>(*e);
	return e;
}
static const std::vector<ref::V>& commands()
{
	static std::vector<ref::V> v{{1, 0, 0}, {-0.5L, 0.8L, 0}, {0.1L, -2, 0}, {0.7L, 0.7L, 0.3L}};
	return v;
}
// kinds mixed in every way: as with built-in obstacles only
static void mixed(Ctx& c)
{
	auto all = pool();
	Environment e(false), f(false);
	List own;
	std::string what;
	mc::Hash h;
	for(size_t i = 0; i < all.size(); ++i)
	{
		int kind = c.pick(5); // absent, built in, own, other, full
		h.u(uint64_t(kind));
		if(!kind) continue;
		std::string n(1, char('a' + i));
		what += n + std::to_string(kind) + " ";
		e.add_obstacle(as(all[i], n, 0));
		own.push_back(as(all[i], n, kind - 1));
		f.add_obstacle(own.back());
	}
	c.note(what);
	e.update();
	f.update();
	c.check(f.get_obstacle_list() == own, "listed", [&] { return "the list is " + std::to_string(f.get_obstacle_list().size()) + " long"; });
	int mode = c.pick(4);
	double critical = c.flip() ? 1.0 : 1.3;
	int n = mc::thorough() ? 11 : 7;
	for(int ix = 0; ix < n; ++ix) for(int iy = 0; iy < n; ++iy)
	{
		ref::V x{-3 + 12.0L * ix / (n - 1) + 0.013L, -6 + 10.0L * iy / (n - 1) + 0.027L, 0};
		for(auto& v : commands()) for(double m : {0.0, 0.4})
		{
			Agent a = make_agent(x, v, m);
			E3 want = Modulation::modulate_velocity(a, e, false, mode & 1, mode & 2, critical);
			E3 got = Modulation::modulate_velocity(a, f, false, mode & 1, mode & 2, critical);
			c.check(close(got, want, 1e-12 * (1 + want.norm())), "as-built-in", [&] { return what + fmt("mode %d at %s command %s: %s instead of %s", mode, str(x).c_str(), str(v).c_str(), str(got).c_str(), str(want).c_str()); });
			if(mode & 2) for(size_t i = 0; i < own.size(); ++i)
				c.check(close(own[i]->get_reference_position(), e.get_obstacle_list()[i]->get_reference_position(), 1e-12), "reference", [&] { return what + own[i]->get_name(); });
		}
	}
	c.transition(uint64_t(n * n));
	c.state(h);
	std::ostringstream os;
	for(auto& o : own) if(o->get_type() == "Own") { os.str(""); os << *o; c.check(os.str() == "<own " + o->get_name() + ">", "printed", [&] { return os.str(); }); }
}
// kinds derived from the ellipsoid in local and grouping environments
static void derived(Ctx& c)
{
	auto all = pool();
	all.push_back(espec({4.5L, 1, 0}, 0.2L, {1.3L, 1, 1}));
	bool aggregated = c.flip(), local = c.flip(), rep = c.flip();
	Environment e(aggregated), f(aggregated);
	std::string what;
	mc::Hash h;
	for(size_t i = 0; i < all.size(); ++i)
	{
		int kind = i < 3 ? c.pick(3) : c.pick(2) * 2;
		std::string n(1, char('a' + i));
		if(kind) what += n + fmt("%d ", kind);
		h.u(uint64_t(kind));
		e.add_obstacle(as(all[i], n, 0));
		f.add_obstacle(as(all[i], n, kind ? kind + 1 : 0));
	}
	c.note(what);
	e.update();
	f.update();
	c.check(e.get_obstacle_list().size() == f.get_obstacle_list().size(), "grouped-alike");
	int n = mc::thorough() ? 12 : 8;
	for(int ix = 0; ix < n; ++ix) for(int iy = 0; iy < n; ++iy)
	{
		ref::V x{-3 + 12.0L * ix / (n - 1) + 0.013L, -6 + 10.0L * iy / (n - 1) + 0.027L, 0};
		for(auto& v : commands())
		{
			Agent a = make_agent(x, v, 0.2);
			E3 want = Modulation::modulate_velocity(a, e, local, rep), got = Modulation::modulate_velocity(a, f, local, rep);
			c.check(close(got, want, 1e-12 * (1 + want.norm())), "derived", [&] { return "derived " + what + fmt("at %s command %s: %s instead of %s", str(x).c_str(), str(v).c_str(), str(got).c_str(), str(want).c_str()); });
		}
		Agent a = make_agent(x, {1, 0, 0}, 0.2);
		for(auto& t : {E3(0, 0, 0), E3(3.3, 0.5, 0), E3(-1, 2.5, 0)})
			c.check(a.exist_path(t, e.get_obstacle_list()) == a.exist_path(t, f.get_obstacle_list()), "path");
		c.check(a.get_envelope().is_intersecting(e.get_obstacle_list()) == a.get_envelope().is_intersecting(f.get_obstacle_list()), "ahead");
		for(size_t i = 0; i < e.get_obstacle_list().size(); ++i)
			c.check(a.in_obstacle(*e.get_obstacle_list()[i]) == a.in_obstacle(*f.get_obstacle_list()[i]), "in-obstacle");
	}
	c.transition(uint64_t(n * n));
	c.state(h.u(aggregated).u(local).u(rep));
}
// straight walls: the prescribed modulation, nothing through them, their own push
static void walls(Ctx& c)
{
	static const std::vector<ref::R> yaw{0, 0.7L, ref::PI / 2, 2.5L, ref::PI, -1.1L};
	static const std::vector<ref::V> at{{0, 0, 0}, {3, -2, 0}, {-40, 25, 0}};
	int n = 1 + c.pick(2);
	std::vector<std::shared_ptr<Wall>> w;
	Environment env(false);
	ref::V p = c.of(at);
	for(int i = 0; i < n; ++i)
	{
		ref::R y = c.of(yaw);
		w.push_back(std::make_shared<Wall>(fmt("w%d", i), p + i * ref::V{1, 2, 0}, y, c.flip() ? 1.0 : 2.5));
		if(c.flip()) w.back()->set_linear_velocity(0.2 * E3(double(w.back()->n.x), double(w.back()->n.y), 0));
		env.add_obstacle(w.back());
	}
	auto e = espec(p + ref::V{2, 2, 0}, 0.3L, {1, 0.5L, 1}).make("z");
	bool also = c.flip();
	if(also) env.add_obstacle(e);
	env.update();
	List list = env.get_obstacle_list();
	for(ref::R d : {0.0L, 0.3L, 1.0L, 4.0L}) for(ref::R s : {-1.5L, 0.2L, 3.0L}) for(auto& v : commands()) for(double m : {0.0, 0.3})
	{
		ref::V n0 = w[0]->n, x = w[0]->through + (d + m) * n0 + s * ref::V{-n0.y, n0.x, 0};
		bool skip = false;
		std::vector<Seen> seen;
		Agent a = make_agent(x, v, m);
		int touching = 0;
		for(auto& o : list)
		{
			seen.push_back(see(*o, a));
			skip |= alignment(seen.back(), x) < 0.05L || (std::fabs(seen.back().gamma - 1) < 1e-6L && d > 0);
			touching += seen.back().gamma <= 1 + 1e-9L;
		}
		if(skip || touching > 1) continue;
		E3 got = Modulation::modulate_velocity(a, env, false);
		if(d > 0)
		{
			ref::V want = modulate(seen, x, v);
			c.check(close(rv(got), want, 1e-5L * (1 + ref::norm(want))), "wall", [&] { return fmt("%d walls, at %s command %s: %s instead of %s", n, str(x).c_str(), str(v).c_str(), str(got).c_str(), str(want).c_str()); });
		}
		else
		{
			// the critical wall decides alone when it is touched; its distance may come out a hair above one
			ref::R in = ref::dot(rv(got) - rv(w[0]->get_linear_velocity()), n0);
			if(list.size() == 1) c.check(std::fabs(in) < 1e-6L, "through-wall", [&] { return fmt("at %s command %s: component %.3Lg along the normal", str(x).c_str(), str(v).c_str(), in); });
		}
		// the push of its own, when near enough
		for(auto& o : w) o->push = E3(0.5, -1.5, 0.25);
		E3 pushed = Modulation::modulate_velocity(a, env, false, true);
		E3 add(0, 0, 0);
		for(auto& o : w) if(o->compute_distance_to_agent(a) < 1.1) add += o->push;
		if(also && e->compute_distance_to_agent(a) < 1.1) add += e->compute_repulsion_vector(a);
		bool close_call = false;
		for(auto& o : list) close_call |= std::fabs(o->compute_distance_to_agent(a) - 1.1) < 1e-9;
		if(!close_call) c.check(close(pushed, E3(got + add), 1e-9), "own-push", [&] { return fmt("at %s: %s instead of %s", str(x).c_str(), str(E3(pushed - got)).c_str(), str(add).c_str()); });
		for(auto& o : w) o->push = E3(0, 0, 0);
		c.transition();
	}
	c.state(mc::Hash().u(uint64_t(n)).u(also).d(double(p.x)).d(double(w[0]->n.x)).d(double(w.back()->n.y)));
}
// rooms of one's own: a path exists unless a closed one separates
static void rooms(Ctx& c)
{
	int n = 1 + c.pick(3);
	List l;
	std::vector<std::shared_ptr<Room>> r;
	static const std::vector<E3> at{E3(0, 0, 0), E3(4, 0, 0), E3(0.5, 0.5, 0)};
	mc::Hash h;
	for(int i = 0; i < n; ++i)
	{
		int k = c.pick(3);
		bool closed = c.flip();
		double half = c.flip() ? 1.5 : 5;
		r.push_back(std::make_shared<Room>(fmt("r%d", i), at[size_t(k)], half, closed));
		h.u(uint64_t(k)).u(closed).d(half);
		l.push_back(r.back());
	}
	// an ellipsoid that is far away, and one that says whether it is closed
	int with = c.pick(4);
	std::shared_ptr<Full> own;
	if(with & 1) l.push_back(espec({20, 0, 0}, 0, {1, 1, 1}).make("e"));
	if(with & 2) { own = std::make_shared<Full>(*espec({0.5L, 0.5L, 0}, 0, {1, 1, 1}).make("f")); own->closed = c.flip(); l.push_back(own); }
	static const std::vector<E3> pts{E3(0, 0, 0), E3(1, 1, 0), E3(4, 0.2, 0), E3(-4, 3, 0), E3(30, 2, 0)};
	for(auto& x : pts) for(auto& t : pts)
	{
		Agent a = make_agent(rv(x), {1, 0, 0}, 0.1);
		bool want = true;
		for(auto& o : r) want &= o->point_is_inside(x) == o->point_is_inside(t) || !o->closed;
		if(own) want &= own->point_is_inside(x) == own->point_is_inside(t) || !own->closed;
		c.check(a.exist_path(t, l) == want, "own-path", [&] { return fmt("%d rooms, from %s to %s: %s", n, str(x).c_str(), str(t).c_str(), want ? "there is a way" : "there is none"); });
	}
	c.transition();
	c.state(h.u(uint64_t(with)).u(own && own->closed));
}
// groups of own kinds have the hulls of their outlines
static void members(Ctx& c)
{
	std::vector<ESpec> all{espec({0, 0, 0}, 0.4L, {2, 1, 1}, {0.1L, 0.1L, 0.1L}), espec({2.2L, 0.5L, 0}, -0.7L, {1.5L, 1, 1}), espec({1, 1.5L, 0}, 0, {1.8L, 1.2L, 1})};
	int n = 1 + c.pick(3);
	List k, l;
	mc::Hash h;
	for(int i = 0; i < n; ++i)
	{
		int kind = c.pick(4);
		h.u(uint64_t(kind));
		l.push_back(as(all[size_t(i)], std::string(1, char('a' + i)), 0));
		k.push_back(as(all[size_t(i)], std::string(1, char('a' + i)), kind));
	}
	bool single = c.flip();
	std::shared_ptr<Aggregate> g, o;
	if(!single) { g = std::make_shared<Aggregate>(l); o = std::make_shared<Aggregate>(k); }
	else { g = std::make_shared<Aggregate>(); o = std::make_shared<Aggregate>(); for(auto& x : l) g->add_primitive(x); for(auto& x : k) o->add_primitive(x); }
	const Obstacle &G = *g, &O = *o;
	for(int round = 0; round < 2; ++round)
	{
		c.check(o->get_name() == g->get_name() && o->is_closed() == g->is_closed() && same(o->get_position(), g->get_position()), "group-attributes");
		for(auto& d : planar_directions()) for(ref::R q : {0.05L, 0.8L, 1.9L, 2.6L, 3.5L, 9.0L})
		{
			ref::V x = rv(g->get_position()) + q * d;
			Agent a = make_agent(x, {1, 0, 0}, 0.2);
			c.check(O.point_is_inside(ev(x)) == G.point_is_inside(ev(x)), "group-inside", [&] { return str(x); });
			c.check(O.compute_distance_to_agent(a) == G.compute_distance_to_agent(a), "group-distance", [&] { return str(x) + fmt(": %.12g instead of %.12g", O.compute_distance_to_agent(a), G.compute_distance_to_agent(a)); });
			c.check(same(O.compute_normal_to_agent(a), G.compute_normal_to_agent(a)), "group-normal", [&] { return str(x); });
		}
		// next to the outlines, where the hull may be behind a member
		for(int i = 0; i < n; ++i) for(int k2 = 0; k2 < 200; ++k2) for(ref::R q : {0.9L, 0.99L, 0.999L, 1.001L, 1.01L})
		{
			ref::R t = 2 * ref::PI * k2 / 200;
			ref::V len = all[size_t(i)].axes + all[size_t(i)].margin, y = rm(all[size_t(i)].rot) * ref::V{q * len.x * std::cos(t), q * len.y * std::sin(t), 0};
			ref::V x = all[size_t(i)].pos + y;
			c.check(O.point_is_inside(ev(x)) == G.point_is_inside(ev(x)), "group-outline", [&] { return str(x); });
		}
		// a new reference reaches the members' own setter
		o->set_reference_position(E3(0.7, 0.3, 0));
		g->set_reference_position(E3(0.7, 0.3, 0));
		for(auto& x : k)
		{
			c.check(same(x->get_reference_position(), E3(0.7, 0.3, 0)), "member-reference");
			if(auto w = std::dynamic_pointer_cast<Own>(x)) c.check(same(w->in.get_reference_position(), E3(0.7, 0.3, 0)), "member-own-setter");
			if(auto w = std::dynamic_pointer_cast<Full>(x)) c.check(same(w->in.get_reference_position(), E3(0.7, 0.3, 0)), "member-own-setter");
			if(auto w = std::dynamic_pointer_cast<Other>(x)) c.check(same(w->in.get_reference_position(), E3(0.7, 0.3, 0)), "member-own-setter");
		}
		o->update_hull();
		g->update_hull();
	}
	std::ostringstream os;
	os << *o;
	for(auto& x : k)
	{
		std::string own = (dynamic_cast<Own*>(x.get()) ? "<own " : dynamic_cast<Full*>(x.get()) ? "<full " : "<other ") + x->get_name() + ">";
		if(dynamic_cast<Own*>(x.get()) || dynamic_cast<Other*>(x.get()) || dynamic_cast<Full*>(x.get())) c.check(os.str().find(own) != std::string::npos, "member-printed", [&] { return os.str(); });
	}
	c.transition();
	c.state(h.u(single));
}
// a cage of a user's own kind is as one that is built of obstacles, from inside and outside
static void cages(Ctx& c)
{
	static const std::vector<ref::V> at{{0, 0, 0}, {3, -2, 0}};
	ref::V p = c.of(at);
	int n = 5 + c.pick(2), gap = c.pick(2), also = c.pick(3);
	List ring;
	for(int i = 0; i < n; ++i)
	{
		ref::R t = 2 * ref::PI * i / n;
		if(gap && i == 0) continue;
		ring.push_back(espec(p + 4 * ref::V{std::cos(t), std::sin(t), 0}, t, {0.8L, 3.2L, 1}, {0.1L, 0.1L, 0.1L}).make(std::string(1, char('a' + i))));
	}
	auto g = std::make_shared<Aggregate>(ring), twin = std::make_shared<Aggregate>(ring);
	auto cage = std::make_shared<Cage>(twin);
	Environment e(false), f(false);
	e.add_obstacle(g);
	f.add_obstacle(cage);
	if(also) for(Environment* v : {&e, &f}) v->add_obstacle(espec(p + (also == 1 ? ref::V{0.5L, 0.3L, 0} : ref::V{9, 1, 0}), 0.3L, {1, 0.5L, 1}).make("z"));
	e.update();
	f.update();
	for(ref::R q : {0.0L, 0.7L, 1.9L, 3.0L, 4.5L, 6.5L, 11.0L}) for(auto& d : planar_directions()) for(auto& v : commands())
	{
		ref::V x = p + q * d + ref::V{0.013L, 0.027L, 0};
		Agent a = make_agent(x, v, 0.2);
		c.check(close(cage->generate_repulsion(a), g->generate_repulsion(a), 1e-12), "cage-push", [&] { return str(x) + ": " + str(cage->generate_repulsion(a)) + " instead of " + str(g->generate_repulsion(a)); });
		c.check(cage->compute_distance_to_agent(a) == g->compute_distance_to_agent(a), "cage-distance", [&] { return str(x); });
		c.check(a.in_obstacle(*ring[0]) == ring[0]->is_intersecting(*espec(x, 0, {0.2L, 0.2L, 0.2L}).make("disc")), "cage-wall");
		for(auto& t : {p, p + ref::V{8, 1, 0}, p + ref::V{-1, 0.5L, 0}})
			c.check(a.exist_path(ev(t), e.get_obstacle_list()) == a.exist_path(ev(t), f.get_obstacle_list()), "cage-path", [&] { return str(x) + " to " + str(t); });
		for(int mode = 0; mode < 4; ++mode)
		{
			E3 want = Modulation::modulate_velocity(a, e, false, mode & 1, mode & 2), got = Modulation::modulate_velocity(a, f, false, mode & 1, mode & 2);
			c.check(close(got, want, 1e-12 * (1 + want.norm())), "cage", [&] { return fmt("mode %d at %s command %s: %s instead of %s", mode, str(x).c_str(), str(v).c_str(), str(got).c_str(), str(want).c_str()); });
		}
		c.transition();
	}
	c.state(mc::Hash().u(uint64_t(n)).u(uint64_t(gap)).u(uint64_t(also)).d(double(p.x)));
}
// obstacles without any geometry
static void bare(Ctx& c)
{
	static const std::vector<ref::V> at{{0, 0, 0}, {2, 1, 0}, {-30, 4, 1}};
	ref::V p = c.of(at);
	int margin = c.pick(2), n = 1 + c.pick(2), rest = c.pick(4);
	bool aggregated = c.flip();
	Environment env(aggregated);
	auto all = pool();
	List b;
	for(int i = 0; i < n; ++i)
	{
		b.push_back(std::make_shared<Obstacle>(i ? "zero" : "bare", State(ev(p + ref::V{10.0L * i, 0, 0})), margin ? 0.5 : 0.0));
		env.add_obstacle(b.back());
	}
	List others;
	for(int i = 0; i < rest; ++i) { others.push_back(all[size_t(i)].make(std::string(1, char('a' + i)))); env.add_obstacle(others.back()); }
	env.update();
	c.check(env.get_obstacle_list().size() == b.size() + others.size(), "bare-listed", [&] { return fmt("the list has %zu entries", env.get_obstacle_list().size()); });
	for(auto& o : b) c.check(env[o->get_name()] == o && o->get_type() == "", "bare-registered");
	for(auto& d : planar_directions()) for(ref::R q : {0.0L, 0.4L, 3.0L})
	{
		ref::V x = p + q * d;
		Agent a = make_agent(x, {1, 0.2L, 0}, 0.2);
		for(auto& o : b)
		{
			unsigned char junk[4096];
			memset(junk, 0x7f, sizeof junk);
			asm volatile("" : : "r"(junk) : "memory");
			E3 nrm = o->compute_normal_to_agent(a);
			c.check(same(nrm, E3(0, 0, 0)), "bare-normal", [&] { return "the normal is " + str(nrm); });
			c.check(!o->point_is_inside(ev(x)), "bare-inside");
			c.check(same(o->compute_repulsion_vector(a), E3(0, 0, 0)) && same(o->generate_repulsion(a), E3(0, 0, 0)), "bare-repulsion");
			c.check(!a.in_obstacle(*o) && !a.get_envelope().is_intersecting(*o), "bare-intersects");
			for(auto& e : others) c.check(!e->is_intersecting(*o) && !o->is_intersecting(*e), "bare-intersects-other");
			c.check(!o->compute_interesection_points(ev(x), ev(x + ref::V{1, 0, 0})).first, "bare-chord");
			E3 before = o->get_reference_position();
			o->shift_reference_point(a);
			c.check(same(before, o->get_reference_position()), "bare-reference");
		}
		bool want = true;
		for(auto& e : others) want &= e->point_is_inside(ev(x)) == e->point_is_inside(E3(3, 0.4, 0));
		c.check(a.exist_path(E3(3, 0.4, 0), env.get_obstacle_list()) == want, "bare-path");
		for(int k = 0; k < 8; ++k)
		{
			E3 v = Modulation::modulate_velocity(a, env, k & 1, k & 2, k & 4);
			c.check(v.allFinite(), "bare-finite", [&] { return str(v); });
			if((k & 1) && !a.get_envelope().is_intersecting(others)) c.check(close(rv(v), {1, 0.2L, 0}, 1e-12L), "bare-local", [&] { return str(v); });
		}
		c.transition();
	}
	c.state(mc::Hash().u(uint64_t(margin)).u(uint64_t(n)).u(uint64_t(rest)).u(aggregated).d(double(p.x)));
}
MC_MAIN("C33", { {"mixed", mixed, 4}, {"derived", derived, 5}, {"walls", walls, 3}, {"rooms", rooms, 3}, {"members", members, 2}, {"cages", cages, 2}, {"bare", bare, 3} })
