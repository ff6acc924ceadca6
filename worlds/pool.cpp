// Pipelines of workers and pools: exactly once, in order, waits, failures, back pressure.
#include "common.h"
#include <chia/ThreadPool.h>
#include <thread>
#include <chrono>
#include <memory>
using namespace w;
namespace {
struct Item { uint64_t id = ~0ull; std::vector<uint64_t> path; };      // moved along, so a lost or doubled move shows
struct Sched { std::vector<std::vector<uint64_t>> cost; };             // [stage][item % n] virtual ns
constexpr int MAXST = 4;
void gen(Rng& r, Plan& p) {
	gen_policy(r, p, 1500);
	int st = r.range(1, 3); p.p["st"] = st; for(int s = 0; s < st; ++s) { p.p["th" + S(s)] = r.chance(0.35) ? 0 : r.chance(0.85) ? r.range(1, 6) : r.range(7, 20); }   // 0: single worker, else pool
	p.p["n"] = r.log_uniform(1, 150); if(r.chance(0.03)) { p.p["th" + S(r.below(st))] = r.log_uniform(21, 400); p.p["n"] = r.log_uniform(20, 1200); }     // far more threads than cores
	 p.p["prod"] = p.p["th0"] == 0 && r.chance(0.4) ? r.range(2, 4) : 1; p.p["waits"] = r.below(4); p.p["slow"] = r.below(5); p.p["pslow"] = r.chance(0.2); p.p["fseed"] = r.next() >> 8; p.p["drop"] = r.chance(0.15); p.p["reuse"] = r.chance(0.2); p.p["lat"] = 0; p.p["copy"] = r.chance(0.5);
	p.p["fail"] = -1; if(p.prop == "C06" ? r.chance(0.35) : p.prop == "C09") { p.p["fail"] = r.below(p.p["n"]); p.p["fstage"] = r.below(st); p.p["fkind"] = r.below(2); }
	if(p.prop == "C09" && r.chance(0.2)) { p.p["fail"] = -1; Fault f; f.op = OP_THREAD; f.cls = "thread"; f.nth = 1 + r.below(8); f.err = EAGAIN; p.faults.push_back(f); }
	if((p.prop == "C06" || p.prop == "C07" || p.prop == "C09") && p.p["fail"] < 0 && r.chance(p.prop == "C07" ? 0.25 : 0.08)) { p.p["n"] = r.chance(0.7) ? 0 : 1; p.p["noloc"] = r.chance(0.8); }     // closed before the workers have started
	if(p.prop == "C19") { p.p["slow"] = 1 + r.below(4); p.p["n"] = r.range(20, 150); p.p["drop"] = 0; }
}
struct Ctx {
	const Plan& p; int st; uint64_t n; std::vector<int> th; std::vector<std::vector<uint64_t>> cost;
	std::vector<uint64_t> got; std::vector<std::vector<uint64_t>> done;       // final order; per stage: times processed per item
	std::vector<int64_t> accepted, completed, worst; std::string bad; uint64_t executing_fail = 0;
	Ctx(const Plan& q) : p(q) {
		st = p.get("st"); n = p.get("n"); Rng r(p.get("fseed")); for(int s = 0; s < st; ++s) { th.push_back(p.get(("th" + S(s)).c_str())); std::vector<uint64_t> c(std::max<uint64_t>(n, 1)); int m = p.get("slow"); for(auto& x : c) x = m == 0 ? 0 : m == 1 ? (r.chance(0.3) ? r.log_uniform(100, 5000000) : 0) : m == 2 ? (s == st - 1 ? 2000000 : 0) : m == 3 ? (s == 0 ? 1000000 : 0) : (r.chance(0.05) ? 5000000 : 1000); cost.push_back(c); }
		done.assign(st, std::vector<uint64_t>(n, 0)); accepted.assign(st + 1, 0); completed.assign(st + 1, 0); worst.assign(st + 1, 0);
	}
	void work(int s, Item& it) {
		uint64_t ns = 0; bool fail = false; { Quiet q; if(it.id >= n) { bad = "an item that was never submitted reached stage " + S(s); return; } ns = cost[s][it.id]; fail = p.get("fail", -1) == (int64_t)it.id && p.get("fstage") == s; }
		if(ns) std::this_thread::sleep_for(std::chrono::nanoseconds(ns));
		if(fail) { executing_fail = 1; if(p.get("fkind")) throw std::logic_error("item failed"); throw std::runtime_error("item failed"); }
		Quiet q; done[s][it.id]++; it.path.push_back(s);
	}
	void accept(int s) { Quiet q; accepted[s]++; worst[s] = std::max(worst[s], accepted[s] - completed[s]); }
	void complete(int s) { Quiet q; completed[s]++; }
	void final(Item& it) { Quiet q; got.push_back(it.id); if((int)it.path.size() != st) bad = "item " + S(it.id) + " reached the end after " + S(it.path.size()) + " of " + S(st) + " stages"; }
};
// hands a result of stage s on, counting what stage s+1 accepted
struct Link : Processor<Item> { Ctx* c; int s; Processor<Item>* next; Link(Ctx* c, int s, Processor<Item>* n) : c(c), s(s), next(n) {} void take(Item& it) override { c->complete(s); if(next) { next->take(it); c->accept(s + 1); } else c->final(it); } };
struct Stage { std::unique_ptr<Link> link; std::unique_ptr<Thread<Item>> t; std::unique_ptr<ThreadPool<Item, Item, uint64_t>> pool; int nth = 0;
	Processor<Item>* in() { return t ? (Processor<Item>*)t.get() : (Processor<Item>*)pool.get(); } void wait() { if(t) t->wait(); else pool->wait(); } void close() { if(t) t->close(); else pool->close(); } };
int scenario(Ctx& c) {
	std::vector<Stage> st(c.st);
	for(int s = c.st - 1; s >= 0; --s) {
		st[s].link.reset(new Link(&c, s, s + 1 < c.st ? st[s + 1].in() : nullptr)); Ctx* x = &c; Link* l = st[s].link.get(); const std::string nm = "w" + S(s);
		if(c.th[s] == 0) st[s].t.reset(new Thread<Item>([x, s, l](Item& it) { x->work(s, it); l->take(it); }, nm));
		else { st[s].pool.reset(new ThreadPool<Item, Item, uint64_t>([x, s](Item& it, Item& out, uint64_t& local) { local++; x->work(s, it); out = std::move(it); }, l, c.th[s], nm)); if(!c.p.get("noloc")) for(int i = 0; i < c.th[s]; ++i) st[s].pool->set_local(i, 0); }
	}
	int prod = c.p.get("prod"); Rng r(c.p.get("fseed") + 1); std::set<uint64_t> waits; for(int i = 0; i < c.p.get("waits"); ++i) waits.insert(r.below(c.n + 1));
	auto feed = [&](int who) {
		for(uint64_t i = who; i < c.n; i += prod) {
			Item it; { Quiet q; it.id = i; }
			if(c.p.get("pslow") && i % 3 == 0) std::this_thread::sleep_for(std::chrono::microseconds(700));
			if(c.p.get("copy")) st[0].in()->take_copy(it); else st[0].in()->take(it);
			c.accept(0);
			if(prod == 1 && waits.count(i)) for(int s = 0; s < c.st; ++s) { st[s].wait(); Quiet q; for(uint64_t j = 0; j <= i; ++j) if(!c.done[s][j] && c.bad.empty()) { c.bad = "wait returned at stage " + S(s) + " although item " + S(j) + " had not been processed"; } if(c.completed[s] != (int64_t)i + 1 && c.bad.empty()) c.bad = "wait returned at stage " + S(s) + " with " + S(c.completed[s]) + " of " + S(i + 1) + " results handed on"; }
		}
	};
	{ std::vector<std::thread> th; for(int k = 1; k < prod; ++k) th.emplace_back(feed, k); feed(0); for(auto& t : th) t.join(); }
	if(c.p.get("drop")) return 0;                  // destructors must finish the work
	for(int s = 0; s < c.st; ++s) {
		uint64_t sum = 0; bool have = false; if(st[s].pool && !c.p.get("noloc")) { have = true; for(size_t i = 0; i < st[s].pool->num_threads(); ++i) sum += st[s].pool->get_local(i); }
		st[s].close(); Quiet q;
		for(uint64_t j = 0; j < c.n; ++j) if(!c.done[s][j] && c.bad.empty()) c.bad = "close returned at stage " + S(s) + " although item " + S(j) + " had not been processed";
		if(have && sum != c.n && c.bad.empty()) c.bad = "thread-local state of stage " + S(s) + " saw " + S(sum) + " items of " + S(c.n);
	}
	return 0;
}
void run(const Plan& p) {
	bool failing = p.get("fail", -1) >= 0 || !p.faults.empty();
	Exit e = exec(p, [&]() -> int {
		Ctx c(p); int rc = 0;
		try { for(int i = p.get("n") ? 1 : 10; i > 0 && !rc; --i) rc = scenario(c); } catch(const std::exception&) { rc = 7; }
		Quiet q;
		if(p.prop == "C19") { for(int s = 0; s < c.st; ++s) { int64_t max = std::max(1, c.th[s]); if(c.worst[s] > max) { violation("unbounded", S(c.worst[s]) + " items accepted and not finished at a stage of " + S(max) + " worker(s)"); return 0; } } }
		if(p.prop == "C06") {
			std::vector<uint64_t> cnt(c.n, 0); for(auto g : c.got) cnt[g]++;
			if(!c.bad.empty() && !failing) { violation("lost", c.bad); return 0; }
			for(uint64_t j = 0; j < c.n; ++j) { if(cnt[j] > 1) { violation("twice", "item " + S(j) + " came out " + S(cnt[j]) + " times"); return 0; } for(int s = 0; s < c.st; ++s) if(c.done[s][j] > 1) { violation("twice", "item " + S(j) + " was processed " + S(c.done[s][j]) + " times by stage " + S(s)); return 0; } if(!failing && !cnt[j]) { violation("lost", "item " + S(j) + " was never delivered"); return 0; } }
			int prod = p.get("prod"); std::vector<int64_t> last(prod, -1); for(auto g : c.got) { if((int64_t)g < last[g % prod]) { violation("order", "item " + S(g) + " came out after item " + S(last[g % prod])); return 0; } last[g % prod] = g; }
			if(failing && c.got.size() && prod == 1) for(size_t i = 0; i < c.got.size(); ++i) if(c.got[i] != i) { violation("gap", "item " + S(c.got[i]) + " was delivered although item " + S(i) + " was not"); return 0; }
			if(failing && rc == 0 && c.executing_fail) { violation("swallowed", "item " + S(p.get("fail")) + " failed in stage " + S(p.get("fstage")) + " but every call returned normally"); return 0; }
		}
		return rc;
	}, Limits{30000000, 60});
	if(p.prop == "C09") { if(hung(e)) violation(std::string("hang.") + end_names[e.kind], "after a failing item the pipeline does not end: " + ending(e)); return; }
	if(violated()) return;
	if(failing) { if(p.prop == "C06" && hung(e)) violation(std::string("hang.") + end_names[e.kind], "a failing item is never reported: " + ending(e)); else if(p.prop == "C06" && e.kind == END_SEGV) violation("crash", "a failing item crashed the process: " + ending(e)); return; }
	need_success(e, "pipeline without faults");
}
struct Reg { Reg() { World w; w.name = "pool"; w.gen = gen; w.run = run; add_world(w); } } reg;
}
