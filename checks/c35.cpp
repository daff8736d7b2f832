// C35 computations in different threads do not affect each other
// The library and this file are compiled with -fsanitize=thread, but linked with the entry points below instead of the
// sanitizer's run time: they tell the explorer of every access to memory, at which it may switch threads.
#include "lib.hpp"
#include <malloc.h>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <memory>
#include <new>
#include <sstream>

#define NT __attribute__((no_sanitize_thread))
#define NTI __attribute__((no_sanitize_thread, noinline))

struct Access { char* at; unsigned size; bool write, atomic, guarded; const void* lock; };
struct Th
{
	int id;
	volatile bool active, finished;
	char *stack_lo, *stack_hi, *arena;
	size_t used, cap;
	volatile long live;
	Access* log;
	size_t n, max_n;
	long ordinal, stop_at;
	int guards;
	const void* lock;
	sem_t go;
	pthread_t thread;
	std::function<void()>* job;
};
static Th th[2];
static sem_t finished_sem;
static __thread Th* self;
static bool scheduling = false;
static const size_t ARENA = size_t(1) << 32, LOG = 4000000;

NT static Th* arena_of(const void* p)
{
	for(int i = 0; i < 2; ++i) if(th[i].arena && p >= th[i].arena && p < th[i].arena + ARENA) return &th[i];
	return nullptr;
}
NT static void hand_over(Th* me)
{
	Th* other = &th[1 - me->id];
	if(other->finished) return;
	bool a = me->active;
	me->active = false;
	sem_post(&other->go);
	sem_wait(&me->go);
	me->active = a;
}
NTI static void access(void* p, size_t n, bool write, bool atomic)
{
	Th* me = self;
	if(!me || !me->active) return;
	char* at = (char*)p;
	if((at >= me->stack_lo && at < me->stack_hi) || (at >= me->arena && at < me->arena + ARENA)) return;
	long k = me->ordinal++;
	if(k == me->stop_at) hand_over(me);
	if(me->n < LOG)
	{
		Access& a = me->log[me->n++];
		a.at = at; a.size = unsigned(n); a.write = write; a.atomic = atomic; a.guarded = me->guards > 0; a.lock = me->lock;
	}
}
extern "C" {
// under their own names here, as the compiler knows the others
#define ENTRY(RET, NAME, ...) RET on_##NAME(__VA_ARGS__) __asm__("__tsan_" #NAME); NT RET on_##NAME(__VA_ARGS__)
ENTRY(void, init) {}
ENTRY(void, func_entry, void*) {}
ENTRY(void, func_exit) {}
#define RW(N) \
	ENTRY(void, read##N, void* p) { access(p, N, false, false); } \
	ENTRY(void, write##N, void* p) { access(p, N, true, false); } \
	ENTRY(void, unaligned_read##N, void* p) { access(p, N, false, false); } \
	ENTRY(void, unaligned_write##N, void* p) { access(p, N, true, false); } \
	ENTRY(void, volatile_read##N, void* p) { access(p, N, false, false); } \
	ENTRY(void, volatile_write##N, void* p) { access(p, N, true, false); } \
	ENTRY(void, unaligned_volatile_read##N, void* p) { access(p, N, false, false); } \
	ENTRY(void, unaligned_volatile_write##N, void* p) { access(p, N, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
ENTRY(void, read_range, void* p, size_t n) { access(p, n, false, false); }
ENTRY(void, write_range, void* p, size_t n) { access(p, n, true, false); }
ENTRY(void, vptr_update, void** p, void* v) { access(p, 8, *p != v, false); }
ENTRY(void, vptr_read, void** p) { access(p, 8, false, false); }
#define AT(B, T) \
	ENTRY(T, atomic##B##_load, const volatile T* p, int) { access((void*)p, sizeof(T), false, true); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
	ENTRY(void, atomic##B##_store, volatile T* p, T v, int) { access((void*)p, sizeof(T), true, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	ENTRY(T, atomic##B##_exchange, volatile T* p, T v, int) { access((void*)p, sizeof(T), true, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	ENTRY(T, atomic##B##_fetch_add, volatile T* p, T v, int) { access((void*)p, sizeof(T), true, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
	ENTRY(T, atomic##B##_fetch_sub, volatile T* p, T v, int) { access((void*)p, sizeof(T), true, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
	ENTRY(T, atomic##B##_fetch_and, volatile T* p, T v, int) { access((void*)p, sizeof(T), true, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
	ENTRY(T, atomic##B##_fetch_or, volatile T* p, T v, int) { access((void*)p, sizeof(T), true, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
	ENTRY(T, atomic##B##_fetch_xor, volatile T* p, T v, int) { access((void*)p, sizeof(T), true, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
	ENTRY(T, atomic##B##_fetch_nand, volatile T* p, T v, int) { access((void*)p, sizeof(T), true, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
	ENTRY(bool, atomic##B##_compare_exchange_strong, volatile T* p, T* e, T v, int, int) { access((void*)p, sizeof(T), true, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	ENTRY(bool, atomic##B##_compare_exchange_weak, volatile T* p, T* e, T v, int, int) { access((void*)p, sizeof(T), true, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned int) AT(64, unsigned long)
ENTRY(void, atomic_thread_fence, int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
ENTRY(void, atomic_signal_fence, int) {}

void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
NT static void* take(Th* me, size_t n)
{
	size_t at = (me->used + 31) & ~size_t(15); // room for the size
	*(size_t*)(me->arena + at) = n;
	me->used = at + 16 + n;
	__atomic_add_fetch(&me->live, 1, __ATOMIC_SEQ_CST);
	return me->arena + at + 16;
}
NT void* __wrap_malloc(size_t n) { Th* me = self; return me && me->active ? take(me, n) : __real_malloc(n); }
NT void* __wrap_calloc(size_t n, size_t m)
{
	Th* me = self;
	if(!(me && me->active)) return __real_calloc(n, m);
	char* p = (char*)take(me, n * m);
	for(size_t i = 0; i < n * m; ++i) p[i] = 0;
	return p;
}
NT void __wrap_free(void* p)
{
	if(!p) return;
	if(Th* o = arena_of(p)) { __atomic_sub_fetch(&o->live, 1, __ATOMIC_SEQ_CST); return; }
	if(self && self->active) access(p, malloc_usable_size(p), true, false);
	__real_free(p);
}
NT void* __wrap_realloc(void* p, size_t n)
{
	Th* o = arena_of(p);
	if(!o && !(self && self->active)) return __real_realloc(p, n);
	char* q = (char*)__wrap_malloc(n);
	size_t old = !p ? 0 : o ? *(size_t*)((char*)p - 16) : malloc_usable_size(p);
	for(size_t i = 0; i < old && i < n; ++i) q[i] = ((char*)p)[i];
	__wrap_free(p);
	return q;
}
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
NT void* __wrap_memcpy(void* d, const void* s, size_t n) { access((void*)s, n, false, false); access(d, n, true, false); return __real_memcpy(d, s, n); }
NT void* __wrap_memmove(void* d, const void* s, size_t n) { access((void*)s, n, false, false); access(d, n, true, false); return __real_memmove(d, s, n); }
NT void* __wrap_memset(void* d, int v, size_t n) { access(d, n, true, false); return __real_memset(d, v, n); }
// what waits for the other thread lets it go on
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
NT int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
	Th* me = self;
	if(!me || !me->active) return __real_pthread_mutex_lock(m);
	while(pthread_mutex_trylock(m)) hand_over(me);
	me->lock = m;
	return 0;
}
NT int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
	if(self && self->active) self->lock = nullptr;
	return __real_pthread_mutex_unlock(m);
}
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
void __real___cxa_guard_abort(void*);
static volatile void* in_progress[64];
NT int __wrap___cxa_guard_acquire(void* g)
{
	Th* me = self;
	if(!me || !me->active) return __real___cxa_guard_acquire(g);
	for(int i = 0; i < 64; ++i) while(in_progress[i] == g) hand_over(me);
	int r = __real___cxa_guard_acquire(g);
	if(r) { ++me->guards; for(int i = 0; i < 64; ++i) if(!in_progress[i]) { in_progress[i] = g; break; } }
	return r;
}
NT static void left(void* g) { if(self && self->active) { --self->guards; for(int i = 0; i < 64; ++i) if(in_progress[i] == g) in_progress[i] = nullptr; } }
NT void __wrap___cxa_guard_release(void* g) { left(g); __real___cxa_guard_release(g); }
NT void __wrap___cxa_guard_abort(void* g) { left(g); __real___cxa_guard_abort(g); }
}
NT void* operator new(size_t n) { void* p = __wrap_malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p; }
NT void* operator new[](size_t n) { return operator new(n); }
NT void operator delete(void* p) noexcept { __wrap_free(p); }
NT void operator delete[](void* p) noexcept { __wrap_free(p); }
NT void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
NT void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }

NT static void* worker(void* arg)
{
	Th* me = (Th*)arg;
	self = me;
	pthread_attr_t a;
	pthread_getattr_np(pthread_self(), &a);
	void* lo;
	size_t n;
	pthread_attr_getstack(&a, &lo, &n);
	pthread_attr_destroy(&a);
	me->stack_lo = (char*)lo;
	me->stack_hi = (char*)lo + n;
	for(;;)
	{
		sem_wait(&me->go);
		me->active = true;
		(*me->job)();
		me->active = false;
		me->finished = true;
		Th* other = &th[1 - me->id];
		if(!other->finished) sem_post(&other->go);
		else sem_post(&finished_sem);
	}
	return nullptr;
}
NT static void start()
{
	if(th[0].log) return;
	sem_init(&finished_sem, 0, 0);
	for(int i = 0; i < 2; ++i)
	{
		th[i].id = i;
		th[i].arena = (char*)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		th[i].log = (Access*)mmap(nullptr, LOG * sizeof(Access), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if(th[i].arena == MAP_FAILED || th[i].log == MAP_FAILED) abort();
		sem_init(&th[i].go, 0, 0);
		th[i].finished = true;
		pthread_create(&th[i].thread, nullptr, worker, &th[i]);
	}
}
// runs the two jobs; thread `first` begins and is left at its access number `stop`, and so on
NT static void together(std::function<void()>* a, std::function<void()>* b, int first, long stop, long other_stop)
{
	start();
	std::function<void()>* job[2] = {a, b};
	for(int i = 0; i < 2; ++i)
	{
		Th& t = th[i];
		t.job = job[i];
		t.n = 0;
		t.ordinal = 0;
		t.guards = 0;
		t.lock = nullptr;
		t.stop_at = i == first ? stop : other_stop;
		t.finished = !job[i];
		if(t.live == 0) t.used = 0;
	}
	sem_post(&th[first].go);
	sem_wait(&finished_sem);
}

// ------------------------------------------------------------------------------------------------------------ worlds
static std::string num(double x) { return fmt("%.17g ", x); }
static std::string num(const E3& v) { return num(v(0)) + num(v(1)) + num(v(2)); }
struct Own
{
	Environment env;
	std::vector<std::shared_ptr<Ellipsoid>> pool;
	std::unique_ptr<Agent> agent;
	std::shared_ptr<Aggregate> group;
	std::string out; // what the script saw
};
static std::shared_ptr<Ellipsoid> mk(const std::string& n, double x, double y, double r)
{
	auto e = std::make_shared<Ellipsoid>(n, State(E3(x, y, 0), Q(Eigen::AngleAxisd(0.3 + x, E3::UnitZ()))), 0.1);
	e->set_axis_lengths(A3(r, 0.8 * r, r));
	return e;
}
// what the threads share, and only ask
struct World
{
	Environment env;
	std::vector<std::shared_ptr<Ellipsoid>> pool;
	std::unique_ptr<Agent> agent;
	std::unique_ptr<StarShapeHull> hull;
	explicit World(int variant, bool with_hull = true) : env(variant != 0)
	{
		pool = {mk("b", 0, 0, 1), mk("an obstacle with a long name", 1.2, 0.2, 1), mk("d", variant == 2 ? 9 : 2.4, -0.3, 1), mk("e", 12, 3, 2)};
		if(variant == 2) { pool[0]->set_linear_velocity(E3(0.2, 0.1, 0)); pool[3]->set_angular_velocity(E3(0, 0, 0.4)); pool[2]->set_reference_position(E3(9.1, -0.2, 0)); }
		for(auto& o : pool) env.add_obstacle(o);
		env.update();
		agent.reset(new Agent(make_agent({-2, 0.3L, 0}, {1, 0.1L, 0}, 0.2)));
		if(with_hull) hull.reset(new StarShapeHull(List{pool[0], pool[1]}, false, 16, 0.5));
	}
};
static void make_own(Own& o, int t, bool with_group)
{
	o.pool = {mk("x", -4 + t, 0, 1), mk("y", 1.5, t, 0.7)};
	for(auto& e : o.pool) o.env.add_obstacle(e);
	o.env.update();
	o.agent.reset(new Agent(make_agent({-3, 0.2L + t, 0}, {1, 0.3L * t, 0}, 0.1)));
	if(with_group) o.group = std::make_shared<Aggregate>(List{mk("u", 0, t, 1), mk("v", 1, 0.3, 1)});
}
typedef std::function<void(const World&, Own&, int)> Script;
static E3 at(int t, int i) { return E3(-2.2 + 0.9 * i + 0.13 * t, 1.7 - 0.3 * i + 0.2 * t, 0.1 * t); }
static Agent who(int t, int i) { return make_agent(rv(at(t, i)), {1 - 0.2L * i, 0.3L * t - 0.1L, 0}, 0.1 * t); }
static const std::vector<std::pair<const char*, Script>>& scripts()
{
	static const std::vector<std::pair<const char*, Script>> v{
		{"modulate", [](const World& w, Own& o, int t) { for(int i = 0; i < 2; ++i) o.out += num(E3(Modulation::modulate_velocity(who(t, i), w.env))); }},
		{"modulate the shared agent", [](const World& w, Own& o, int t) { o.out += num(E3(Modulation::modulate_velocity(*w.agent, w.env, t == 1))); }},
		{"modulate locally", [](const World& w, Own& o, int t) { for(int i = 0; i < 2; ++i) o.out += num(E3(Modulation::modulate_velocity(who(t, i), w.env, true, true))); }},
		{"matrices", [](const World& w, Own& o, int t) { for(auto& e : w.env.get_obstacle_list()) { auto m = Modulation::compute_modulation_matrix(who(t, 1), *e); o.out += num(E3(std::get<2>(m) * E3(1, 2, 3))); } }},
		{"distances and normals", [](const World& w, Own& o, int t) { for(auto& e : w.env.get_obstacle_list()) for(int i = 0; i < 3; ++i) o.out += num(dist_to(*e, at(t, i), 0.1 * t)) + num(e->compute_normal_to_agent(who(t, i))) + num(e->compute_distance_to_agent(who(t, i))); }},
		{"inside", [](const World& w, Own& o, int t) { for(auto& e : w.env.get_obstacle_list()) for(int i = 0; i < 3; ++i) o.out += e->point_is_inside(at(t, i)) ? "in " : "out "; }},
		{"in obstacle", [](const World& w, Own& o, int t) { for(auto& e : w.env.get_obstacle_list()) o.out += who(t, 1).in_obstacle(*e) ? "in " : "out "; }},
		{"path", [](const World& w, Own& o, int t) { for(int i = 0; i < 2; ++i) o.out += w.agent->exist_path(at(t, i), w.env.get_obstacle_list()) ? "path " : "none "; }},
		{"repulsion", [](const World& w, Own& o, int t) { for(auto& e : w.env.get_obstacle_list()) o.out += num(e->generate_repulsion(who(t, 2), 3)); }},
		{"weights", [](const World&, Own& o, int t) { Eigen::ArrayXd d(5); d << 2, 3 + t, 1.5, 9, 1.1; Eigen::ArrayXd r = Modulation::weight_obstacles(d, 1, 2); o.out += num(r(0)) + num(r(4)); }},
		{"meetings", [](const World& w, Own& o, int t) { for(auto& e : w.pool) o.out += e->is_intersecting(*w.pool[size_t(1 + t)]) ? "meets " : "misses "; o.out += who(t, 1).get_envelope().is_intersecting(w.env.get_obstacle_list()) ? "ahead " : "free "; }},
		{"samples", [](const World& w, Own& o, int t) { for(auto& e : w.pool) { Eigen::MatrixXd m = e->sample_from_parameterization(unsigned(9 + t), t); o.out += num(m.sum()) + num(e->area()); } }},
		{"printing", [](const World& w, Own& o, int) { std::ostringstream s; for(auto& e : w.env.get_obstacle_list()) s << *e; s << *w.agent; o.out += s.str(); }},
		{"copies", [](const World& w, Own& o, int t) { Environment e(w.env); Agent a(*w.agent); Ellipsoid l(*w.pool[size_t(t)]); a.set_linear_velocity(E3(0, t, 0)); l.set_position(t, 1, 2); l.set_name("copy"); o.out += num(a.get_envelope().get_position()) + num(l.get_position()) + num(double(e.get_obstacle_list().size())); }},
		{"lookups", [](const World& w, Own& o, int) { Environment& e = const_cast<Environment&>(w.env); o.out += e["b"]->get_name() + e["e"]->get_type(); try { e["none"]; } catch(std::exception& x) { o.out += x.what(); } }},
		{"hull", [](const World& w, Own& o, int t) { for(int i = 0; i < 3; ++i) o.out += num(dist_to(*w.hull, at(t, i), 0.1)) + (w.hull->point_is_inside(at(t, i)) ? "in " : "out ") + num(w.hull->compute_normal_to_agent(who(t, i))); o.out += w.hull->is_closed() ? "closed" : "open"; }},
		{"another hull", [](const World& w, Own& o, int t) { StarShapeHull h(List{w.pool[size_t(t)], w.pool[2]}, t == 1, 12, 0.3); o.out += num(dist_to(h, at(t, 0), 0)); }},
		{"tools", [](const World&, Own& o, int t) { auto l = MathTools::linspace(0, 3 + t, 17); auto g = MathTools::gridspace({0, 1}, {2, 3}, {4, 5}); Eigen::MatrixXd m(3, 4); m << 1, 2, 3, 4, 0.4, 0.1, 0.9, 0.3, 0, 0, 0, t; m = MathTools::sorted_cols_by_theta(m); auto p = MathTools::find_closest_points(m, E3(0, 0.35, 0), 1); o.out += num(l.back()) + num(double(g.size())) + num(m(0, 0)) + num(m(0, 3)) + num(p.first) + num(p.second) + num(MathTools::cartesian_to_polar(at(t, 1))) + num(MathTools::polar_to_cartesian(at(t, 0))); }},
		{"poses", [](const World& w, Own& o, int t) { Pose p = w.pool[1]->get_pose().inverse() * w.agent->get_pose(); o.out += num(p * at(t, 0)); Agent a = w.agent->transformed(p); o.out += num(a.get_position()) + num(a.get_envelope().get_position()); }},
		{"its own world moves", [](const World&, Own& o, int t) { o.pool[0]->set_position(3.0 * t, 4, 0); o.pool[0]->set_reference_position(E3(3.0 * t, 4, 0)); o.env.update(); o.out += num(double(o.env.get_obstacle_list().size())); o.pool[0]->set_position(1, 0.2 * t, 0); o.env.update(); for(auto& e : o.env.get_obstacle_list()) o.out += e->get_name() + num(e->get_reference_position()); }},
		{"its own world is used", [](const World&, Own& o, int t) { o.env.add_obstacle(mk("z", 6, t, 1)); o.env.update(); o.out += num(E3(Modulation::modulate_velocity(*o.agent, o.env, false, true, true))); o.env.remove_obstacle("z"); o.env.set_aggregated(t == 0); o.env.update(); o.out += num(E3(Modulation::modulate_velocity(*o.agent, o.env))); }},
		{"its own agent changes", [](const World&, Own& o, int t) { o.agent->set_linear_velocity(E3(t, 1, 0)); o.agent->set_position(E3(1, t, 2)); o.agent->set_safety_margin(0.4 + t); o.agent->transform(Pose(1, 2, 3, 0.8, 0, 0, 0.6)); o.out += num(o.agent->get_envelope().get_position()) + num(o.agent->get_envelope().get_reference_position()); }},
		{"its own group changes", [](const World&, Own& o, int t) { o.group->get_primitives().front()->set_position(0.1 * t, 0.2, 0); o.group->update_hull(); o.group->add_primitive(mk("w", 2, 0.5 * t, 1)); o.out += o.group->get_name() + num(dist_to(*o.group, at(t, 1), 0.1)); }},
		{"a world comes and goes", [](const World&, Own& o, int t) { World w(0, false); o.out += num(E3(Modulation::modulate_velocity(*w.agent, w.env))); }},
	};
	return v;
}
static int number(const char* name) { for(size_t i = 0; i < scripts().size(); ++i) if(!strcmp(scripts()[i].first, name)) return int(i); abort(); }
static const World& world(int variant)
{
	static std::unique_ptr<World> w[3];
	if(!w[variant]) w[variant].reset(new World(variant));
	return *w[variant];
}
static bool needs_group(const std::vector<int>& s)
{
	static const int k = number("its own group changes");
	return std::count(s.begin(), s.end(), k) > 0;
}
static void play(const std::vector<int>& s, const World& w, Own& o, int t)
{
	for(int k : s) scripts()[size_t(k)].second(w, o, t);
}
// what a thread does alone: its answers, and the accesses at which it may be interrupted
struct Alone { std::string out; std::vector<long> points; size_t accesses = 0; };
static const Alone& alone(const std::vector<int>& s, int variant, int t)
{
	static std::map<std::tuple<std::vector<int>, int, int>, Alone> memo;
	Alone& a = memo[std::make_tuple(s, variant, t)];
	if(!a.out.empty()) return a;
	for(int k = 0; k < 2; ++k)
	{
		// the first time may set things up for good
		const World& w = world(variant);
		Own own;
		make_own(own, t, needs_group(s));
		std::function<void()> f = [&] { play(s, w, own, t); };
		together(t ? nullptr : &f, t ? &f : nullptr, t, -1, -1);
		a.out = own.out;
		a.points.clear();
		a.accesses = th[t].n;
		long stride = mc::thorough() ? std::max<long>(1, long(th[t].n) / 60) : std::max<long>(1, long(th[t].n) / 6);
		for(size_t i = 0; i < th[t].n; ++i)
		{
			const Access& x = th[t].log[i];
			if(long(i) % stride == 0 || (x.atomic && x.write && (mc::thorough() || i % 7 == 0))) a.points.push_back(long(i));
		}
	}
	return a;
}
struct Clash { bool found = false; std::string what; };
static Clash clash()
{
	// conflicting accesses of the two threads that nothing orders
	Clash r;
	std::map<char*, std::vector<const Access*>> cells;
	for(size_t i = 0; i < th[0].n; ++i)
	{
		const Access& a = th[0].log[i];
		if(a.guarded) continue;
		for(unsigned k = 0; k < a.size; k += 8) { auto& l = cells[(char*)((size_t(a.at) + k) & ~size_t(7))]; if(l.size() < 64) l.push_back(&a); }
		auto& l = cells[(char*)((size_t(a.at) + a.size - 1) & ~size_t(7))];
		if(l.size() < 64 && (l.empty() || l.back() != &a)) l.push_back(&a);
	}
	for(size_t i = 0; i < th[1].n && !r.found; ++i)
	{
		const Access& b = th[1].log[i];
		if(b.guarded) continue;
		for(size_t k = 0; k < size_t(b.size) + 7 && !r.found; k += 8)
		{
			auto c = cells.find((char*)((size_t(b.at) + k) & ~size_t(7)));
			if(c == cells.end()) continue;
			for(auto a : c->second)
			{
				if(!(a->write || b.write) || (a->atomic && b.atomic) || (a->lock && a->lock == b.lock)) continue;
				if(a->at + a->size <= b.at || b.at + b.size <= a->at) continue;
				r.found = true;
				r.what = fmt("one thread %s what the other one %s, %u and %u bytes", a->write ? "writes" : "reads", b.write ? "writes" : "reads", a->size, b.size);
				break;
			}
		}
	}
	return r;
}
static void one_run(Ctx& c, const std::vector<int>& sa, const std::vector<int>& sb, int variant, bool two, bool coarse)
{
	const Alone &a = alone(sa, variant, 0), &b = alone(sb, variant, 1);
	int first = c.pick(2);
	const Alone &x = first ? b : a, &y = first ? a : b;
	// all points, or eight of them
	auto choose = [&](const std::vector<long>& points) {
		int n = int(points.size());
		if(!coarse || n <= 8) return c.pick(n + 1) - 1;
		int k = c.pick(9) - 1;
		return k < 0 ? -1 : k * (n - 1) / 7;
	};
	int p = choose(x.points);
	int q = two && p >= 0 ? choose(y.points) : -1;
	auto what = [&] {
		std::string s;
		for(int k : sa) s += fmt("%s, ", scripts()[size_t(k)].first);
		s += "and in the other thread ";
		for(int k : sb) s += fmt("%s, ", scripts()[size_t(k)].first);
		return s + fmt("world %d, thread %d first, left after access %ld of %zu", variant, first, p < 0 ? -1 : x.points[size_t(p)], x.accesses);
	};
	if(c.recording) c.note("%s", what().c_str());
	const World& w = world(variant);
	Own own[2];
	make_own(own[0], 0, needs_group(sa));
	make_own(own[1], 1, needs_group(sb));
	std::function<void()> f = [&] { play(sa, w, own[0], 0); }, g = [&] { play(sb, w, own[1], 1); };
	together(&f, &g, first, p < 0 ? -1 : x.points[size_t(p)], q < 0 ? -1 : y.points[size_t(q)]);
	Clash k = p < 0 ? clash() : Clash();
	c.check(!k.found, "race", [&] { return what() + ": " + k.what; });
	c.check(own[0].out == a.out, "first-thread", [&] { return what() + ": " + own[0].out.substr(0, 200) + " instead of " + a.out.substr(0, 200); });
	c.check(own[1].out == b.out, "second-thread", [&] { return what() + ": " + own[1].out.substr(0, 200) + " instead of " + b.out.substr(0, 200); });
	c.transition(th[0].n + th[1].n);
	mc::Hash h;
	for(int i : sa) h.u(uint64_t(i));
	h.u(99);
	for(int i : sb) h.u(uint64_t(i));
	h.u(uint64_t(variant)).u(uint64_t(first)).u(uint64_t(p + 1)).u(uint64_t(q + 1));
	c.state(h);
}
static void pairs(Ctx& c)
{
	int n = int(scripts().size());
	int i = c.pick(n), j = c.pick(n), variant = c.pick(3);
	one_run(c, {i}, {j}, variant, false, false);
}
// two interruptions
static void twice(Ctx& c)
{
	int n = int(scripts().size());
	int i = c.pick(n), j = c.pick(n), variant = mc::thorough() ? c.pick(2) : 1;
	if(!mc::thorough() && (i + j) % 7) return;
	one_run(c, {i}, {j}, variant, true, true);
}
// longer scripts
static void longer(Ctx& c)
{
	int n = int(scripts().size());
	int i = c.pick(n), j = c.pick(n), k = c.pick(n);
	if(!mc::thorough() && (i + 2 * j + 3 * k) % 17) return;
	one_run(c, {i, j}, {k, i}, 1, false, true);
}
MC_MAIN("C35", { {"pairs", pairs, 3}, {"twice", twice, 3}, {"longer", longer, 3} })
