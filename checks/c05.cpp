// C05 agents never share state
#include "agentmodel.hpp"
#include <memory>

struct Pair { std::unique_ptr<Agent> a; AgentModel m; };

static void mutate(Ctx& c, Agent& a, AgentModel& m, int k, int salt)
{
	switch(k)
	{
	case 0: { ref::V x{1.0L + salt, 2, 0.5L * salt}; a.set_position(ev(x)); m.pose.t = x; c.note("moves"); break; }
	case 1: { ref::V x = agent_velocities()[size_t(salt % 8)]; a.set_linear_velocity(ev(x)); m.vel = rv(ev(x)); c.note("changes velocity"); break; }
	case 2: { double x = 0.25 * salt; a.set_safety_margin(x); m.margin = x; c.note("changes margin"); break; }
	case 3: { const Rot& r = rotations()[size_t(salt % 14)]; a.transform(Pose(E3(1, salt, 0), eq(r))); m.pose = ref::P{{1, ref::R(salt), 0}, rm(r)} * m.pose; c.note("is transformed"); break; }
	}
}

static void run(Ctx& c, int depth, int agents)
{
	std::vector<Pair> v;
	for(int i = 0; i < agents; ++i)
	{
		Pair p;
		p.m.pose.t = {ref::R(10 * i), 1, 0};
		p.m.vel = {1, ref::R(i), 0};
		p.m.margin = 0.2 * i;
		p.a.reset(new Agent(State(ev(p.m.pose.t), Q(1, 0, 0, 0), ev(p.m.vel), E3::Zero()), p.m.margin));
		v.push_back(std::move(p));
	}
	for(int d = 0; d < depth; ++d)
	{
		size_t i = size_t(c.pick(int(v.size())));
		int op = c.pick(9);
		if(op < 4) mutate(c, *v[i].a, v[i].m, op, d + 1 + int(i));
		else if(op == 4)
		{
			size_t j = size_t(c.pick(int(v.size())));
			*v[i].a = *v[j].a;
			v[i].m = v[j].m;
			c.note("%zu assigned from %zu", i, j);
		}
		else if(op == 5)
		{
			// replaced by a new copy, the old one destroyed
			size_t j = size_t(c.pick(int(v.size())));
			std::unique_ptr<Agent> n(new Agent(*v[j].a));
			v[i].m = v[j].m;
			v[i].a = std::move(n);
			c.note("%zu replaced by a copy of %zu", i, j);
		}
		else if(op == 6)
		{
			size_t j = size_t(c.pick(int(v.size())));
			const Rot& r = rotations()[11];
			*v[i].a = v[j].a->transformed(Pose(E3(0, -1, 2), eq(r)));
			v[i].m = v[j].m;
			v[i].m.pose = ref::P{{0, -1, 2}, rm(r)} * v[i].m.pose;
			c.note("%zu is %zu transformed", i, j);
		}
		else if(op == 7)
		{
			size_t j = size_t(c.pick(int(v.size())));
			if(i != j) { std::swap(*v[i].a, *v[j].a); std::swap(v[i].m, v[j].m); }
			else { Agent& self = *v[i].a; *v[i].a = self; *v[i].a = std::move(self); }
			c.note("%zu and %zu swapped", i, j);
		}
		else
		{
			// copies inside a growing and shrinking container
			std::vector<Agent> w;
			for(int k = 0; k < 5; ++k) { w.push_back(*v[i].a); w.back().set_position(E3(k, k, k)); w.back().set_safety_margin(5 + k); }
			w.erase(w.begin());
			w.back().set_linear_velocity(E3(0, 0, 3));
			c.note("copies of %zu in a container", i);
			AgentModel m = v[i].m;
			m.pose.t = {1, 1, 1};
			m.margin = 6;
			check_agent(c, w[0], m, "first copy in the container");
		}
		c.transition();
		for(size_t k = 0; k < v.size(); ++k)
		{
			check_agent(c, *v[k].a, v[k].m, "one of several agents");
			for(size_t l = 0; l < k; ++l) c.check(&v[k].a->get_envelope() != &v[l].a->get_envelope(), "shared-envelope");
		}
	}
}
static void two(Ctx& c) { run(c, mc::thorough() ? 5 : 4, 2); }
static void three(Ctx& c) { run(c, mc::thorough() ? 4 : 3, 3); }

// a long chain of copies, of which one is changed
static void chain(Ctx& c)
{
	int n = 4 + c.pick(mc::thorough() ? 60 : 30), how = c.pick(3), op = c.pick(4);
	int at = std::vector<int>{0, 1, n / 2, n - 1}[size_t(c.pick(4))];
	bool drop = c.flip();
	std::vector<std::unique_ptr<Agent>> v;
	AgentModel m;
	m.pose.t = {3, 1, 0};
	m.vel = {1, 2, 0};
	m.margin = 0.3;
	v.emplace_back(new Agent(State(ev(m.pose.t), Q(1, 0, 0, 0), ev(m.vel), E3::Zero()), m.margin));
	for(int i = 1; i < n; ++i)
	{
		size_t from = how == 2 ? 0 : size_t(i - 1);
		if(how == 1) { v.emplace_back(new Agent()); *v.back() = *v[from]; }
		else v.emplace_back(new Agent(*v[from]));
		c.transition();
	}
	AgentModel k = m;
	mutate(c, *v[size_t(at)], k, op, 3);
	if(drop) for(int i = 0; i < n; i += 2) if(i != at) v[size_t(i)].reset();
	for(int i = 0; i < n; ++i) if(v[size_t(i)]) check_agent(c, *v[size_t(i)], i == at ? k : m, "agent in a chain of copies");
	c.state(mc::Hash().u(uint64_t(n)).u(uint64_t(how)).u(uint64_t(op)).u(uint64_t(at)).u(drop));
}
// agents made one after the other, by every constructor, at the same places, at rest or moving; one dies, one changes
static void made(Ctx& c)
{
	int n = mc::thorough() ? 4 : 3;
	std::vector<Pair> v;
	for(int i = 0; i < n; ++i)
	{
		Pair p;
		int how = c.pick(4), where = c.pick(3);
		bool rest = how == 1 || c.flip();
		if(how) p.m.pose.t = where == 0 ? ref::V{} : where == 1 ? ref::V{1.5L, -2, 0} : rv(i ? E3(envelope_of(*v.back().a).get_position()) : E3(7, 7, 0));
		else if(where) return;
		if(how == 0) { p.a.reset(new Agent()); if(!rest) { p.a->set_linear_velocity(E3(0, 2, 0)); p.m.vel = {0, 2, 0}; } }
		else if(how == 1) p.a.reset(new Agent(State(ev(p.m.pose.t))));
		else if(how == 2) { p.m.vel = rest ? ref::V{} : ref::V{0.6L, 0.8L, 0}; p.m.vel = rv(ev(p.m.vel)); p.m.margin = 0.25; p.a.reset(new Agent(State(ev(p.m.pose.t), Q(1, 0, 0, 0), ev(p.m.vel), E3::Zero()), 0.25)); }
		else { p.m.margin = 0.25; p.a.reset(new Agent(State(ev(p.m.pose.t), Q(1, 0, 0, 0)), 0.25)); if(!rest) { p.a->set_linear_velocity(E3(3, 0, 0)); p.m.vel = {3, 0, 0}; } }
		c.note("made by constructor %d at %s%s", how, str(p.m.pose.t).c_str(), rest ? "" : " moving");
		v.push_back(std::move(p));
		for(auto& q : v) check_agent(c, *q.a, q.m, "one of several agents made at the same place");
		for(size_t k = 0; k + 1 < v.size(); ++k) c.check(&v[k].a->get_envelope() != &v.back().a->get_envelope(), "shared-envelope");
		c.transition();
	}
	size_t k = size_t(c.pick(n));
	mutate(c, *v[k].a, v[k].m, c.pick(4), 3);
	for(auto& q : v) check_agent(c, *q.a, q.m, "after one of them changed");
	v[size_t(c.pick(n))].a.reset();
	for(auto& q : v) if(q.a) check_agent(c, *q.a, q.m, "after one of them is gone");
}
MC_MAIN("C05", { {"made", made, 4}, {"two", two, 2}, {"three", three, 2}, {"chain", chain, 2} })
