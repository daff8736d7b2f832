// C06 the environment is a registry of obstacles by name
#include "envmodel.hpp"
#include <map>

struct Reg
{
	std::map<std::string, std::shared_ptr<Obstacle>> map;
	bool aggregated = true;
	// what the last update has put in the list
	std::map<std::string, std::shared_ptr<Obstacle>> listed; // name in the list -> obstacle (null for an aggregate)
	std::vector<std::string> list_names() const { std::vector<std::string> v; for(auto& p : listed) v.push_back(p.first); return v; }
};

struct World
{
	std::vector<std::string> probes;
	std::vector<std::shared_ptr<Ellipsoid>> pool;
	std::vector<ref::Ell> ells;
	void add(const std::string& n, double x, double y = 0, double r = 1)
	{
		auto e = std::make_shared<Ellipsoid>(n, x, y, 0.);
		e->set_axis_lengths(A3(r, r, r));
		pool.push_back(e);
		ref::Ell l;
		l.pose.t = {x, y, 0};
		l.axes = {r, r, r};
		ells.push_back(l);
	}
};

static void model_update(Reg& m, const World& w)
{
	std::vector<Named> v;
	for(auto& p : m.map) for(size_t i = 0; i < w.pool.size(); ++i) if(w.pool[i] == p.second) v.push_back({p.first, w.ells[i], p.second.get()});
	m.listed.clear();
	for(auto& k : components(v, m.aggregated)) m.listed["" + k.name] = k.aggregate ? nullptr : m.map[k.name];
}

// outcome of a lookup: 0 object, 1 not in environment, 2 other exception
static int get(Environment& e, const std::string& n, std::shared_ptr<Obstacle>& o)
{
	try { o = e[n]; return 0; }
	catch(Exceptions::ObstacleNotInEnvironmentException& x) { return std::string(x.what()).find(n) != std::string::npos ? 1 : 3; }
	catch(...) { return 2; }
}

static void compare(Ctx& c, Environment& e, const Reg& m, const World& w, const List& snapshot, const char* what)
{
	for(auto& n : w.probes)
	{
		std::shared_ptr<Obstacle> o;
		int r = get(e, n, o);
		auto it = m.map.find(n);
		if(it != m.map.end())
		{
			c.check(r == 0 && o == it->second, "lookup-registered", [&] { return fmt("%s: [%s] gives %s", what, n.c_str(), r ? "an exception" : o ? "another obstacle" : "null"); });
			continue;
		}
		auto l = m.listed.find(n);
		if(m.aggregated && l != m.listed.end() && !l->second)
		{
			const std::shared_ptr<Obstacle>* x = nullptr;
			for(auto& y : e.get_obstacle_list()) if(y->get_type() == "Aggregate" && y->get_name() == n) x = &y;
			c.check(r == 0 && x && o == *x, "lookup-aggregate", [&] { return fmt("%s: [%s] does not give the aggregate of the list", what, n.c_str()); });
			continue;
		}
		c.check(r == 1, "lookup-absent", [&] { return fmt("%s: [%s] gives %s", what, n.c_str(), r == 0 ? (o ? ("obstacle " + o->get_name()).c_str() : "null") : r == 3 ? "an exception without the name" : "another exception"); });
	}
	const List& list = e.get_obstacle_list();
	c.check(e.is_aggregated() == m.aggregated, "aggregated-flag");
	c.check(list.size() == m.listed.size() && list == snapshot, "list-changed", [&] { return fmt("%s: the list is [%s]", what, names(list).c_str()); });
	std::map<std::string, int> seen;
	for(auto& o : list)
	{
		auto l = m.listed.find(o->get_name());
		c.check(l != m.listed.end() && ++seen[o->get_name()] == 1, "list-content", [&] { return fmt("%s: unexpected %s in the list", what, o->get_name().c_str()); });
		if(l != m.listed.end()) c.check(l->second ? o == l->second : o->get_type() == "Aggregate", "list-identity", [&] { return fmt("%s: %s is not the registered obstacle", what, o->get_name().c_str()); });
	}
	mc::Hash h;
	for(auto& p : m.map) { h.s(p.first).d(p.second->get_position()(0)); }
	h.u(m.aggregated);
	for(auto& p : m.listed) h.s(p.first);
	c.state(h);
}

static void run(Ctx& c, World& w, const std::vector<std::string>& removable, int depth, bool start_aggregated)
{
	Environment e(start_aggregated);
	Reg m;
	m.aggregated = start_aggregated;
	List snapshot;
	// all lengths are explored, so looking at the end of every history is enough
	depth = c.pick(depth + 1);
	int P = int(w.pool.size()), R = int(removable.size());
	for(int d = 0; d < depth; ++d)
	{
		int k = c.pick(P + R + 2);
		c.transition();
		if(k < P)
		{
			auto& o = w.pool[size_t(k)];
			c.note("add " + o->get_name());
			bool expect = m.map.count(o->get_name()) > 0;
			int r = 0;
			try { e.add_obstacle(o); }
			catch(Exceptions::ObstacleAlreadyExistsException& x) { r = std::string(x.what()).find(o->get_name()) != std::string::npos ? 1 : 3; }
			catch(...) { r = 2; }
			c.check(r == int(expect), "add-outcome", [&] { return fmt("adding %s: outcome %d", o->get_name().c_str(), r); });
			if(!expect) m.map[o->get_name()] = o;
		}
		else if(k < P + R)
		{
			auto& n = removable[size_t(k - P)];
			c.note("remove " + n);
			bool expect = m.map.count(n) == 0;
			int r = 0;
			try { e.remove_obstacle(n); }
			catch(Exceptions::ObstacleNotInEnvironmentException& x) { r = std::string(x.what()).find(n) != std::string::npos ? 1 : 3; }
			catch(...) { r = 2; }
			c.check(r == int(expect), "remove-outcome", [&] { return fmt("removing %s: outcome %d", n.c_str(), r); });
			m.map.erase(n);
		}
		else if(k == P + R)
		{
			c.note("update");
			e.update();
			model_update(m, w);
			snapshot = e.get_obstacle_list();
		}
		else
		{
			c.note("switch aggregation");
			m.aggregated = !m.aggregated;
			e.set_aggregated(m.aggregated);
		}
	}
	compare(c, e, m, w, snapshot, "after operations");
	compare(c, e, m, w, snapshot, "after lookups");
	// a copy of the environment has the same content and a life of its own
	Environment f(e);
	compare(c, f, m, w, snapshot, "copy");
	for(auto& p : m.map) f.remove_obstacle(p.first);
	f.set_aggregated(!m.aggregated);
	f.update();
	compare(c, e, m, w, snapshot, "original of a changed copy");
	for(auto& o : w.pool) c.check(o.use_count() > 0 && o->get_type() == "Ellipsoid", "alive");
}

// well separated obstacles, two of which have the same name; names that are prefixes of each other or look like others
static void separated(Ctx& c)
{
	World w;
	w.add("a", 0);
	w.add("ab", 10);
	w.add("a", 20);
	w.add("", 30);
	w.add("aggregate_a_ab", 40);
	w.probes = {"a", "ab", "", "b", "A", "aggregate_a_ab", "aggregate", "aggregate_a", "a "};
	bool flag = c.flip();
	run(c, w, {"a", "ab", "", "aggregate_a_ab", "b"}, (mc::thorough() ? 6 : 5) - int(flag), flag);
}
// overlapping obstacles: aggregates come and go
static void overlapping(Ctx& c)
{
	World w;
	w.add("a", 0);
	w.add("b", 1.2);
	w.add("c", 10);
	w.probes = {"a", "b", "c", "aggregate_a_b", "aggregate_b_a", "aggregate_a", "aggregate_a_b_c", "aggregate"};
	run(c, w, {"a", "b", "aggregate_a_b"}, mc::thorough() ? 5 : 4, true);
}
// a fixed beginning, then all continuations: an environment that has aggregated, switched off, shrunk
static void later(Ctx& c)
{
	World w;
	w.add("a", 0);
	w.add("b", 1.2);
	w.add("d", 2.4);
	w.add("z", 11);
	w.probes = {"a", "b", "d", "z", "aggregate_a_b", "aggregate_a_b_d", "aggregate_b_d", "aggregate_a_d", "aggregate_a_b_d_z"};
	Environment e;
	Reg m;
	List snapshot;
	for(auto& o : w.pool) { e.add_obstacle(o); m.map[o->get_name()] = o; }
	e.update();
	model_update(m, w);
	snapshot = e.get_obstacle_list();
	compare(c, e, m, w, snapshot, "start");
	int depth = mc::thorough() ? 5 : 4;
	for(int i = 0; i < depth; ++i)
	{
		int k = c.pick(6);
		c.transition();
		if(k < 4)
		{
			auto& o = w.pool[size_t(k)];
			if(m.map.count(o->get_name())) { c.note("remove " + o->get_name()); e.remove_obstacle(o->get_name()); m.map.erase(o->get_name()); }
			else { c.note("add " + o->get_name()); e.add_obstacle(o); m.map[o->get_name()] = o; }
		}
		else if(k == 4) { c.note("update"); e.update(); model_update(m, w); snapshot = e.get_obstacle_list(); }
		else { c.note("switch aggregation"); m.aggregated = !m.aggregated; e.set_aggregated(m.aggregated); }
		compare(c, e, m, w, snapshot, "later");
	}
}
// many obstacles
static void many(Ctx& c)
{
	World w;
	int n = c.of(std::vector<int>{30, 300});
	// also names that differ only after many letters
	std::string stem = c.flip() ? std::string(120, 'x') + "o" : "o";
	for(int i = 0; i < n; ++i) w.add(stem + std::to_string(i), 5. * i);
	for(int i = 0; i < n; ++i) w.probes.push_back(stem + std::to_string(i));
	w.probes.push_back(stem);
	w.probes.push_back(stem + std::to_string(n));
	Environment e(c.flip());
	Reg m;
	m.aggregated = e.is_aggregated();
	int order = c.pick(3), drop = n == 30 ? c.pick(n) : n / 2 * c.pick(2) + 17, again = n == 30 ? c.pick(2) : 1;
	for(int i = 0; i < n; ++i)
	{
		int k = order == 0 ? i : order == 1 ? n - 1 - i : (i * 7) % n;
		e.add_obstacle(w.pool[size_t(k)]);
		m.map[w.pool[size_t(k)]->get_name()] = w.pool[size_t(k)];
		c.transition();
	}
	e.update();
	for(auto& p : m.map) m.listed[p.first] = p.second;
	List snapshot = e.get_obstacle_list();
	compare(c, e, m, w, snapshot, "many");
	std::string nm = stem + std::to_string(drop);
	e.remove_obstacle(nm);
	auto kept = m.map[nm];
	m.map.erase(nm);
	compare(c, e, m, w, snapshot, "many but one");
	if(again) { e.add_obstacle(kept); m.map[nm] = kept; }
	e.update();
	m.listed.clear();
	for(auto& p : m.map) m.listed[p.first] = p.second;
	snapshot = e.get_obstacle_list();
	compare(c, e, m, w, snapshot, "many updated");
	c.transition(4);
}
// clusters with many members, whose names become long
static void clusters(Ctx& c)
{
	World w;
	int n = c.of(std::vector<int>{8, 13, 30, 60});
	std::string stem = c.flip() ? std::string(40, 'x') + "o" : "o";
	int per = c.of(std::vector<int>{2, n / 2, n});
	for(int i = 0; i < n; ++i) w.add(stem + std::to_string(100 + i), 1.2 * i + 50. * (i / per), i % 3 * 0.2);
	for(int i = 0; i < n; i += 3) w.probes.push_back(stem + std::to_string(100 + i));
	Environment e;
	Reg m;
	for(auto& o : w.pool) { e.add_obstacle(o); m.map[o->get_name()] = o; }
	e.update();
	model_update(m, w);
	for(auto& p : m.listed) w.probes.push_back(p.first);
	for(auto& p : m.listed) { w.probes.push_back(p.first + "_"); w.probes.push_back(p.first.substr(0, p.first.size() - 1)); }
	List snapshot = e.get_obstacle_list();
	compare(c, e, m, w, snapshot, "clusters");
	auto& gone = w.pool[size_t(n / 2)];
	e.remove_obstacle(gone->get_name());
	m.map.erase(gone->get_name());
	compare(c, e, m, w, snapshot, "before the update");
	e.update();
	model_update(m, w);
	snapshot = e.get_obstacle_list();
	for(auto& p : m.listed) w.probes.push_back(p.first);
	compare(c, e, m, w, snapshot, "cluster without a member");
	c.transition(4);
}

MC_MAIN("C06", { {"separated", separated, 5}, {"overlapping", overlapping, 4}, {"later", later, 2}, {"many", many, 3}, {"clusters", clusters, 2} })
