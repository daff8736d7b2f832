// C29 queries change nothing, and their answers depend on the current attributes only
#include "ellalpha.hpp"

struct Spec
{
	std::vector<ESpec> o;
	ref::V x, v;
	double margin = 0.2;
	bool aggregated = true;
};
struct World
{
	Spec s;
	std::vector<std::shared_ptr<Ellipsoid>> obj;
	Environment env;
	Agent agent;
	explicit World(const Spec& sp): s(sp), env(sp.aggregated), agent(make_agent(sp.x, sp.v, sp.margin))
	{
		for(size_t i = 0; i < s.o.size(); ++i) { obj.push_back(s.o[i].make(fmt("o%zu", i))); env.add_obstacle(obj.back()); }
		env.update();
	}
};
typedef std::vector<double> Row;
static void put(Row& r, const E3& v) { for(int i = 0; i < 3; ++i) r.push_back(v(i)); }
static Row attributes(World& w)
{
	Row r;
	auto one = [&](const Obstacle& o)
	{
		put(r, o.get_position());
		auto q = o.get_orientation();
		for(double x : {q.w(), q.x(), q.y(), q.z()}) r.push_back(x);
		put(r, o.get_linear_velocity());
		put(r, o.get_angular_velocity());
		put(r, o.get_reference_position());
		put(r, o.get_safety_margin());
		r.push_back(double(std::hash<std::string>()(o.get_name() + "/" + o.get_type()) >> 12));
		if(auto e = dynamic_cast<const Ellipsoid*>(&o)) { put(r, E3(e->get_axis_lengths())); put(r, E3(e->get_curvature_factor())); }
		if(auto a = dynamic_cast<const Aggregate*>(&o)) { auto& p = a->get_primitives(); r.push_back(double(p.size())); for(auto& m : p) r.push_back(double(std::hash<std::string>()(m->get_name()) >> 12)); }
	};
	for(auto& o : w.obj) one(*o);
	auto& l = w.env.get_obstacle_list();
	r.push_back(double(l.size()));
	for(auto& o : l) one(*o);
	r.push_back(w.env.is_aggregated());
	put(r, w.agent.get_position());
	put(r, w.agent.get_linear_velocity());
	put(r, w.agent.get_angular_velocity());
	r.push_back(w.agent.get_safety_margin());
	one(w.agent.get_envelope());
	return r;
}
static const int NQ = 14;
static const char* qname(int k)
{
	static const char* n[NQ] = {"modulated velocity", "local modulated velocity", "modulated velocity with repulsion", "distances", "normals", "membership", "intersections", "samples", "repulsion", "chords", "list and lookup", "path and occupancy", "matrices", "text and copies"};
	return n[k];
}
static Row query(World& w, int k)
{
	Row r;
	auto& l = w.env.get_obstacle_list();
	static const std::vector<E3> pts{E3(0.3, 0.2, 0), E3(2.1, -0.4, 0), E3(-3, 2.5, 0), E3(6, 6, 0), E3(-0.9, -2.2, 0)};
	switch(k)
	{
	case 0: put(r, Modulation::modulate_velocity(w.agent, w.env)); break;
	case 1: put(r, Modulation::modulate_velocity(w.agent, w.env, true)); break;
	case 2: put(r, Modulation::modulate_velocity(w.agent, w.env, false, true)); break;
	case 3: for(auto& o : l) { r.push_back(o->compute_distance_to_agent(w.agent)); for(auto& p : pts) r.push_back(dist_to(*o, p, 0.1)); } break;
	case 4: for(auto& o : l) { put(r, o->compute_normal_to_agent(w.agent)); } for(auto& o : w.obj) put(r, o->compute_normal_to_agent(w.agent)); break;
	case 5: for(auto& o : l) { r.push_back(o->is_closed()); for(auto& p : pts) r.push_back(o->point_is_inside(p)); } break;
	case 6: for(auto& a : l) for(auto& b : l) r.push_back(a->is_intersecting(*b)); for(auto& a : w.obj) { r.push_back(a->is_intersecting(w.agent.get_envelope())); for(auto& b : w.obj) r.push_back(a->is_intersecting(*b)); } break;
	case 7: for(auto& o : w.obj) { Eigen::MatrixXd m = o->sample_from_parameterization(17, true); for(int i = 0; i < m.size(); ++i) r.push_back(m(i)); r.push_back(o->area(true)); r.push_back(o->area(false)); } break;
	case 8: for(auto& o : l) { put(r, o->compute_repulsion_vector(w.agent)); r.push_back(o->get_repulsion_factor(w.agent)); } break;
	case 9: for(auto& o : w.obj) { auto i = o->compute_interesection_points(o->get_position() + E3(0.1, 0.1, 0), E3(9, 4, 0)); r.push_back(i.first); put(r, i.second.first); put(r, i.second.second); } break;
	case 10: r.push_back(double(l.size())); for(size_t i = 0; i < w.obj.size(); ++i) r.push_back(w.env[fmt("o%zu", i)] == w.obj[i]); try { w.env["nobody"]; r.push_back(1); } catch(std::exception&) { r.push_back(0); } break;
	case 11: for(auto& o : l) r.push_back(w.agent.in_obstacle(*o)); for(auto& p : pts) r.push_back(w.agent.exist_path(p, l)); break;
	case 12: for(auto& o : l) { auto t = Modulation::compute_modulation_matrix(w.agent, *o); for(int i = 0; i < 9; ++i) r.push_back(std::get<0>(t)(i)); r.push_back(std::get<2>(t)); } break;
	case 13:
	{
		std::ostringstream os;
		for(auto& o : w.obj) { os << *o; Ellipsoid copy(*o); copy.set_position(E3(50, 50, 50)); copy.set_axis_lengths(A3(9, 9, 9)); }
		os << w.agent;
		Agent a(w.agent), b;
		b = a;
		a.set_position(E3(50, 50, 50));
		b.set_safety_margin(4);
		b.set_linear_velocity(E3(9, 9, 9));
		// a rotation may be written with either sign of its quaternion
		std::string text = os.str();
		r.push_back(double(text.size() - size_t(std::count(text.begin(), text.end(), '-'))));
		break;
	}
	}
	return r;
}
static bool alike(const Row& a, const Row& b)
{
	if(a.size() != b.size()) return false;
	for(size_t i = 0; i < a.size(); ++i)
	{
		if(std::isnan(a[i]) != std::isnan(b[i])) return false;
		if(!std::isnan(a[i]) && !(a[i] == b[i]) && !(std::fabs(a[i] - b[i]) <= 1e-9 * (1 + std::fabs(b[i])))) return false;
	}
	return true;
}
static std::string str(const Row& r) { std::string s; for(size_t i = 0; i < r.size() && i < 40; ++i) s += fmt(" %.9g", r[i]); return s; }
// two worlds that use the same names
static const std::vector<Spec>& worlds()
{
	static std::vector<Spec> v;
	if(v.empty())
	{
		Spec a;
		a.o = {espec({2, 0, 0}, 0.4L, {1.5L, 0.7L, 1}), espec({3, 0.5L, 0}, -0.6L, {0.8L, 1, 1}, {0.1L, 0.2L, 0.3L}), espec({-2, -2.5L, 0}, 0, {1, 1, 1}), espec({-3, 3, 0}, 1, {0.4L, 1.2L, 2})};
		a.o[2].vel = {0.3L, 0.1L, 0};
		a.o[3].own_ref = true; a.o[3].refpos = {-3.1L, 2.8L, 0};
		a.x = {0.2L, 0.1L, 0};
		a.v = {1, -0.2L, 0};
		v.push_back(a);
		Spec b;
		b.o = {espec({1.5L, 1, 0}, 0, {1, 1, 1}), espec({-3, -1, 0}, 0.3L, {0.5L, 2, 1}), espec({-2.6L, -2, 0}, 1.3L, {1.6L, 0.3L, 1}), espec({-3.5L, 0.4L, 0}, 0, {1, 0.6L, 1})};
		b.o[0].angvel = {0, 0, 0.8L};
		b.o[1].c0 = 2; b.o[1].c1 = 2;
		b.x = {1.3L, 0.6L, 0}; // inside an obstacle
		b.v = {-0.3L, 1, 0.1L};
		b.margin = 0;
		v.push_back(b);
		Spec d = a;
		d.aggregated = false;
		d.x = {2.7L, 0.2L, 0};
		v.push_back(d);
	}
	return v;
}
// answers of worlds nobody asked anything before
static const Row& fresh(size_t w, int k)
{
	static std::map<std::pair<size_t, int>, Row> memo;
	auto it = memo.find({w, k});
	if(it != memo.end()) return it->second;
	World f(worlds()[w]);
	return memo[{w, k}] = query(f, k);
}
// all sequences of queries to two worlds in turn
static void queries(Ctx& c)
{
	size_t a = size_t(c.pick(3)), b = (a + 1 + size_t(c.flip())) % 3;
	int depth = mc::thorough() ? 3 : 2;
	std::vector<std::pair<int, int>> ops;
	// the first decisions choose the shard, so that no world is built in vain
	for(int i = 0; i < depth; ++i)
	{
		int k = c.pick(i == 0 || i == depth - 1 ? NQ : 2 * NQ);
		ops.push_back({k >= NQ, k % NQ});
	}
	World w0(worlds()[a]), w1(worlds()[b]);
	World* w[2] = {&w0, &w1};
	Row before[2] = {attributes(w0), attributes(w1)};
	mc::Hash h;
	h.u(a).u(b);
	for(auto& op : ops)
	{
		auto& x = *w[op.first];
		size_t id = op.first ? b : a;
		Row got = query(x, op.second);
		c.transition();
		c.note("%s of world %zu", qname(op.second), id);
		const Row& want = fresh(id, op.second);
		c.check(alike(got, want), "answer", [&] { return fmt("%s after other queries:", qname(op.second)) + str(got) + " expected" + str(want); });
		for(int i = 0; i < 2; ++i)
		{
			Row now = attributes(*w[i]);
			bool eq = now == before[i];
			c.check(eq, "changed", [&] { return fmt("%s changed an attribute of %s world", qname(op.second), i == op.first ? "the" : "another") + ": from" + str(before[i]) + " to" + str(now); });
		}
		h.u(uint64_t(op.first)).u(uint64_t(op.second));
	}
	c.state(h);
}
// all sequences of queries and modifications: at the end every answer is that of a world built in that state
static void modify(Ctx& c, World& w, int k)
{
	auto set_pos = [&](size_t i, ref::V p) { w.s.o[i].pos = p; w.s.o[i].own_ref = true; w.s.o[i].refpos = p; w.obj[i]->set_position(ev(p)); w.obj[i]->set_reference_position(ev(p)); };
	switch(k)
	{
	case 0: set_pos(1, {3.5L, -3, 0}); c.note("o1 moved apart"); break;
	case 1: set_pos(2, {2.2L, 1.2L, 0}); c.note("o2 moved"); break;
	case 2: w.s.o[0].axes = {0.5L, 2, 1}; w.obj[0]->set_axis_lengths(A3(0.5, 2, 1)); c.note("o0 resized"); break;
	case 3: w.s.o[0].rot = {{0, 0, 1}, -1.1L}; w.obj[0]->set_orientation(eq(w.s.o[0].rot)); c.note("o0 turned"); break;
	case 4: w.s.x = {-0.5L, -0.8L, 0}; w.agent.set_position(ev(w.s.x)); c.note("agent moved"); break;
	case 5: w.s.v = {-0.4L, 0.7L, 0}; w.agent.set_linear_velocity(ev(w.s.v)); c.note("agent turned"); break;
	case 6: w.s.margin = 0.45; w.agent.set_safety_margin(0.45); c.note("agent margin"); break;
	case 7: w.s.o[2].vel = {0, -0.5L, 0}; w.s.o[2].angvel = {0, 0, 1}; w.obj[2]->set_linear_velocity(E3(0, -0.5, 0)); w.obj[2]->set_angular_velocity(E3(0, 0, 1)); c.note("o2 sped up"); break;
	case 8: w.s.o[3].c0 = 2; w.s.o[3].c1 = 3; w.obj[3]->set_curvature_factor(A3(2, 3, 1)); c.note("o3 curved"); break;
	}
	w.env.update();
}
static void histories(Ctx& c)
{
	size_t id = size_t(c.pick(3));
	int depth = mc::thorough() || id == 0 ? 3 : 2;
	std::vector<int> ops;
	for(int i = 0; i < depth; ++i) ops.push_back(c.pick(NQ + 9));
	if(ops.back() < NQ) return; // covered by the shorter histories
	if(mc::thorough() && ops[0] < NQ && ops[1] >= NQ) ops.insert(ops.begin() + 2, c.pick(NQ));
	World w(worlds()[id]);
	mc::Hash h;
	h.u(id);
	for(int k : ops)
	{
		if(k < NQ) { query(w, k); c.note("%s", qname(k)); }
		else modify(c, w, k - NQ);
		c.transition();
		h.u(uint64_t(k));
	}
	World f(w.s);
	for(int k = 0; k < NQ; ++k)
	{
		Row got = query(w, k), want = query(f, k);
		c.check(alike(got, want), "history", [&] { return fmt("%s depends on the history:", qname(k)) + str(got) + " expected" + str(want); });
	}
	c.state(h);
}
// one single coordinate of one attribute of one thing is changed, by much or by little: every answer follows
static void touches(Ctx& c)
{
	size_t id = size_t(c.pick(3)), which = size_t(c.pick(5));
	int attribute = c.pick(which == 4 ? 7 : 24);
	bool little = c.flip(), backwards = c.flip(), asked = c.flip();
	World w(worlds()[id]);
	// asked before: everything, or only the single obstacles
	for(int k = 0; k < NQ; ++k) if(asked || k == 7 || k == 6 || k == 3) query(w, k);
	auto d = [&](double v) { return little ? v * 1e-3 : v; };
	if(which == 4)
	{
		switch(attribute)
		{
		case 0: case 1: case 2: { E3 x = ev(w.s.x); x(attribute) += d(0.4); w.s.x = rv(x); w.agent.set_position(x); break; }
		case 3: case 4: case 5: { E3 v = ev(w.s.v); v(attribute - 3) += d(0.6); w.s.v = rv(v); w.agent.set_linear_velocity(v); break; }
		case 6: w.s.margin += d(0.35); w.agent.set_safety_margin(w.s.margin); break;
		}
	}
	else
	{
		ESpec& o = w.s.o[which];
		Ellipsoid& e = *w.obj[which];
		int k = attribute % 3;
		auto add = [&](ref::V v, double x) { E3 t = ev(v); t(k) += x; return rv(t); };
		switch(attribute / 3)
		{
		case 0: // where it is given explicitly the reference stays
			if(!o.own_ref) { o.own_ref = true; o.refpos = o.pos; }
			o.pos = add(o.pos, d(0.3)); e.set_position(ev(o.pos)); break;
		case 1: o.refpos = add(o.own_ref ? o.refpos : o.pos, d(0.2)); o.own_ref = true; e.set_reference_position(ev(o.refpos)); break;
		case 2: o.axes = add(o.axes, d(0.5)); e.set_axis_lengths(ea(o.axes)); break;
		case 3: o.pos = add(o.pos, d(-0.7)); o.own_ref = true; o.refpos = o.pos; e.set_position(ev(o.pos)); e.set_reference_position(ev(o.pos)); break;
		case 4: (k == 0 ? o.c0 : k == 1 ? o.c1 : o.c2) += 1; e.set_curvature_factor(A3(o.c0, o.c1, o.c2)); break;
		case 5: o.vel = add(o.vel, d(0.5)); e.set_linear_velocity(ev(o.vel)); break;
		case 6: o.angvel = add(o.angvel, d(0.5)); e.set_angular_velocity(ev(o.angvel)); break;
		case 7: if(k == 1) o.rot.angle = o.rot.angle ? -o.rot.angle : ref::R(d(-0.1)); else o.rot.angle += k == 2 ? 3 : ref::R(d(0.5)); e.set_orientation(eq(o.rot)); break;
		}
	}
	// the single obstacles answer at once, the list after an update
	auto same = [&](World& f, int k, const char* when)
	{
		Row got = query(w, k), want = query(f, k);
		c.check(alike(got, want), "touched", [&] { return fmt("%s %s a change of attribute %d of %zu:", qname(k), when, attribute, which) + str(got) + " expected" + str(want); });
		c.transition();
	};
	World f(w.s);
	for(int k : {7, 9, 13}) if(k != 13) same(f, k, "at once after");
	// references that a group had given are given back by the update of what was grouped
	w.env.update();
	bool regrouped = which != 4 && (attribute / 3 < 2 || worlds()[id].o[which].own_ref);
	if(regrouped)
	{
		// a reference position that was given while in a group is the group's business
		for(auto& o : f.env.get_obstacle_list()) if(o->get_type() == "Aggregate") return;
		for(auto& o : w.env.get_obstacle_list()) if(o->get_type() == "Aggregate") return;
		if(worlds()[id].aggregated) return;
	}
	for(int i = 0; i < NQ; ++i) same(f, backwards ? NQ - 1 - i : i, "after");
	c.state(mc::Hash().u(id).u(which).u(uint64_t(attribute)).u(little).u(backwards).u(asked));
}
MC_MAIN("C29", { {"queries", queries, 3}, {"histories", histories, 3}, {"touches", touches, 3} })
