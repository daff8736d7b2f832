// model of an environment: named obstacles and the partition of them into connected components of overlap
#ifndef ENVMODEL_HPP
#define ENVMODEL_HPP
#include "lib.hpp"
#include <memory>

struct Named { std::string name; ref::Ell ell; Obstacle* ptr = nullptr; };
struct Component { std::string name; std::vector<size_t> members; bool aggregate = false; };

// overlap levels are computed once per pair of shapes
inline ref::R level_of(const ref::Ell& a, const ref::Ell& b)
{
	static std::unordered_map<uint64_t, ref::R> memo;
	mc::Hash h;
	for(const ref::Ell* e : {&a, &b})
	{
		ref::V l = e->len();
		double x[5] = {double(l.x), double(l.y), double(e->pose.r.m[0][0]), double(e->pose.r.m[1][0]), double(e->pose.r.m[1][1])};
		for(double v : x) { uint64_t u; memcpy(&u, &v, 8); h.u(u); }
	}
	ref::V d = b.pose.t - a.pose.t;
	double x[2] = {double(d.x), double(d.y)};
	for(double v : x) { uint64_t u; memcpy(&u, &v, 8); h.u(u); }
	auto it = memo.find(h);
	if(it != memo.end()) return it->second;
	ref::Ell p = a, q = b;
	q.pose.t = d;
	p.pose.t = ref::V();
	return memo[h] = std::min(ref::overlap_level(p, q), ref::overlap_level(q, p));
}
// true when some pair is too close to touching to be decided
inline bool ambiguous(const std::vector<Named>& v)
{
	for(size_t i = 0; i < v.size(); ++i) for(size_t j = 0; j < i; ++j)
	{
		ref::R l = level_of(v[i].ell, v[j].ell);
		if(l > 0.97L && l < 1.03L) return true;
	}
	return false;
}
inline bool overlap(const ref::Ell& a, const ref::Ell& b)
{
	return level_of(a, b) < 1;
}
// v sorted by name
inline std::vector<Component> components(const std::vector<Named>& v, bool aggregated)
{
	std::vector<int> id(v.size());
	for(size_t i = 0; i < v.size(); ++i) id[i] = int(i);
	if(aggregated)
		for(size_t i = 0; i < v.size(); ++i) for(size_t j = 0; j < v.size(); ++j)
			if(i != j && id[i] != id[j] && overlap(v[i].ell, v[j].ell)) { int old = id[j], now = id[i]; for(auto& k : id) if(k == old) k = now; }
	std::vector<Component> r;
	for(size_t i = 0; i < v.size(); ++i)
	{
		Component k;
		for(size_t j = 0; j < v.size(); ++j) if(id[j] == int(i)) k.members.push_back(j);
		if(k.members.empty()) continue;
		// members come in the order of v: sort them by name
		std::sort(k.members.begin(), k.members.end(), [&](size_t a, size_t b) { return v[a].name < v[b].name; });
		k.aggregate = k.members.size() > 1;
		if(k.aggregate) { k.name = "aggregate"; for(auto m : k.members) k.name += "_" + v[m].name; }
		else k.name = v[k.members[0]].name;
		r.push_back(k);
	}
	return r;
}
inline std::string names(const List& l)
{
	std::string s;
	for(auto& o : l) s += (s.empty() ? "" : ", ") + (o ? o->get_name() : std::string("(null)"));
	return s;
}
inline ref::V centre_of(const Component& k, const std::vector<Named>& v)
{
	ref::V m;
	for(auto i : k.members) m = m + v[i].ell.pose.t;
	return (1 / ref::R(k.members.size())) * m;
}
// the list against the partition
inline void check_partition(Ctx& c, const List& list, const std::vector<Named>& v, bool aggregated, const char* what)
{
	auto comp = components(v, aggregated);
	auto w = [&](const std::string& s) { return std::string(what) + ": " + s + " in list [" + names(list) + "]"; };
	c.check(list.size() == comp.size(), "count", [&] { std::string e; for(auto& k : comp) e += " " + k.name; return w(fmt("%zu obstacles, expected", list.size()) + e); });
	std::map<std::string, int> seen;
	for(auto& o : list)
	{
		c.check(bool(o), "null", [&] { return w("null obstacle"); });
		const Component* k = nullptr;
		for(auto& x : comp) if(x.name == o->get_name() && x.aggregate == (o->get_type() == "Aggregate")) k = &x;
		c.check(k != nullptr, "name", [&] { return w("unexpected " + o->get_type() + " " + o->get_name()); });
		if(!k) continue;
		c.check(++seen[k->name] == 1, "twice", [&] { return w(k->name + " is listed twice"); });
		if(!k->aggregate)
		{
			c.check(o.get() == v[k->members[0]].ptr, "identity", [&] { return w(k->name + " is not the registered object"); });
			continue;
		}
		auto& a = dynamic_cast<Aggregate&>(*o);
		auto& pr = a.get_primitives();
		c.check(pr.size() == k->members.size(), "members", [&] { return w(fmt("%s has %zu members", k->name.c_str(), pr.size())); });
		for(size_t i = 0; i < pr.size(); ++i)
		{
			c.check(pr[i].get() == v[k->members[i]].ptr, "member-identity", [&] { return w(fmt("member %zu of %s", i, k->name.c_str())); });
		}
		ref::V m = centre_of(*k, v);
		ref::R tol = 1e-9L * (1 + ref::norm(m));
		c.check(close(rv(a.get_position()), m, tol), "centre", [&] { return w(k->name + " at " + str(a.get_position()) + " expected " + str(m)); });
		c.check(close(rv(a.get_reference_position()), m, tol), "reference", [&] { return w("reference of " + k->name + " at " + str(a.get_reference_position()) + " expected " + str(m)); });
		for(auto& p : pr) c.check(close(rv(p->get_reference_position()), m, tol), "member-reference", [&] { return w("reference of member " + p->get_name() + " at " + str(p->get_reference_position()) + " expected " + str(m)); });
	}
	mc::Hash h;
	for(auto& k : comp) h.s(k.name);
	c.outcome(h);
}
#endif
