// runtime contracts of the graph layer: edge symmetry and destruction (C13), reads after updates (C14), variables (C15), placeholders (C16)
// Histories are run against the real nodes; expected values come from an independent evaluator, expected edges from a reference graph.
#include "rv.hpp"
#include "graph/leaf/variable.hpp"
#include "graph/leaf/placeholder.hpp"
#include "graph/leaf/constant.hpp"
#include "graph/varptr.hpp"
#include "graph/connector/immutable/generator.hpp"
#include "graph/operations/operations.hpp"
#include <deque>
#include <memory>
#include <sys/wait.h>
using namespace rv;
using namespace nnet;
typedef long double ld;
typedef varptr<double> vp;

struct vec_init : public initializer<double>
{
	std::vector<double> v;
	vec_init (std::vector<double> d) : v(d) {}
protected:
	virtual itensor_handler<double>* clone_impl (void) const { return new vec_init(*this); }
	virtual itensor_handler<double>* move_impl (void) { return new vec_init(*this); }
	virtual void calc_data (double* dest, tensorshape s) { for (size_t i = 0, n = s.n_elems(); i < n; i++) dest[i] = v[i % v.size()]; }
};
static std::string lit (double s) { std::ostringstream o; o.precision(17); o << s; return o.str(); }

// does f() leave the process by exception or assertion? (run in a child: an assertion ends the process)
static int refused (std::function<bool(void)> f)
{
	fflush(stdout);
	pid_t p = fork();
	if (p == 0)
	{
		signal(SIGABRT, SIG_DFL);
		int dn = open("/dev/null", O_WRONLY);
		if (dn >= 0) { dup2(dn, 2); dup2(dn, 1); }
		bool changed = false;
		try { changed = f(); } catch (...) { _exit(10); }
		_exit(changed ? 11 : 12);
	}
	int st = 0;
	waitpid(p, &st, 0);
	if (WIFSIGNALED(st)) return WTERMSIG(st) == SIGABRT ? 0 : 2;
	int c = WEXITSTATUS(st);
	return c == 10 ? 0 : c == 11 ? 1 : c == 12 ? 3 : 2;      // 0 refused, 1 accepted, 2 broke, 3 ignored
}

//==================================================================== C13 (a): bare subjects and observers
struct Obj;
static std::map<long, Obj*> LIVE;
static long NEXT = 0;
static long UPDATES = 0;
struct Obj : public subject, public iobserver
{
	long id; bool fragile; std::vector<size_t> got; long orphaned = 0;
	Obj (bool frag) : id(NEXT++), fragile(frag) { LIVE[id] = this; }
	Obj (std::vector<subject*> d, bool frag) : iobserver(d), id(NEXT++), fragile(frag) { LIVE[id] = this; }
	Obj (const Obj& o) : subject(o), iobserver(o), id(NEXT++), fragile(o.fragile) { LIVE[id] = this; }
	Obj (Obj&& o) : subject(std::move(o)), iobserver(std::move(o)), id(NEXT++), fragile(o.fragile) { LIVE[id] = this; }
	~Obj (void) { LIVE.erase(id); }
	virtual std::string get_label (void) const { return "obj"; }
	virtual void update (std::unordered_set<size_t> idx) { UPDATES++; got = std::vector<size_t>(idx.begin(), idx.end()); std::sort(got.begin(), got.end()); }
	virtual void death_on_broken (void) { if (fragile) delete this; }
	// subjects such as constants destroy themselves here
	virtual void death_on_noparent (void) { orphaned++; }
};
typedef std::map<long, std::vector<long> > RG;   // reference graph: observer -> subjects by position, -1 none
static std::map<long, bool> FRAG;

static void trim (std::vector<long>& v) { while (false == v.empty() && v.back() < 0) v.pop_back(); }
static void rg_kill (RG& g, long x)
{
	std::vector<long> todo = {x};
	std::set<long> dead;
	while (false == todo.empty())
	{
		long d = todo.back(); todo.pop_back();
		if (false == dead.insert(d).second) continue;
		for (auto& o : g) if (false == dead.count(o.first) && std::count(o.second.begin(), o.second.end(), d) && FRAG[o.first]) todo.push_back(o.first);
	}
	for (long d : dead) g.erase(d);
	for (auto& o : g)
	{
		bool hit = false;
		for (long& s : o.second) if (dead.count(s)) { s = -1; hit = true; }
		if (hit) trim(o.second);
	}
}
static void edges_agree (RG& g, const std::string& key)
{
	std::set<subject*> subs; std::set<iobserver*> obs;
	std::set<long> want, have;
	for (auto& o : g) want.insert(o.first);
	for (auto& l : LIVE) { have.insert(l.first); subs.insert(l.second); obs.insert(l.second); }
	RV_CHECK(want == have, key + ":alive", "nodes alive " << str(have) << ", expected " << str(want));
	if (want != have) { _exit((printf("STATS\t%ld\t%zu\n", C().evals, C().distinct.size()), fflush(stdout), 1)); }
	for (auto& l : LIVE)
	{
		std::vector<long> ids;
		for (subject* s : l.second->dependencies_)
		{
			long id = -1;
			if (s)
			{
				if (false == (bool) subs.count(s)) { RV_CHECK(false, key + ":dangling", "object " << l.first << " depends on a dead subject"); continue; }
				id = static_cast<Obj*>(s)->id;
			}
			ids.push_back(id);
		}
		std::vector<long> w = g[l.first], h = ids;
		trim(w); trim(h);
		RV_CHECK(w == h, key + ":deps", "object " << l.first << " depends on " << str(h) << ", expected " << str(w));
		// registrations of this subject: exactly the positions at which some observer depends on it
		std::map<iobserver*, std::set<size_t> > exp, reg;
		for (auto& o : LIVE) for (size_t i = 0; i < o.second->dependencies_.size(); i++) if (o.second->dependencies_[i] == (subject*) l.second) exp[o.second].insert(i);
		for (auto& a : l.second->audience_)
		{
			if (false == (bool) obs.count(a.first)) { RV_CHECK(false, key + ":dead-audience", "object " << l.first << " registers a dead observer"); continue; }
			reg[a.first] = std::set<size_t>(a.second.begin(), a.second.end());
		}
		std::ostringstream e;
		RV_CHECK(exp == reg, key + ":registration", "object " << l.first << " registers " << reg.size() << " observers, expected " << exp.size() << ", or other positions");
		RV_CHECK(l.second->n_audience() == exp.size() && l.second->no_audience() == exp.empty(), key + ":n_audience", "object " << l.first << " counts " << l.second->n_audience() << " observers, expected " << exp.size());
	}
}
static void bare_history (void)
{
	RG g; FRAG.clear();
	std::string h;
	auto pick = [&]() -> long { if (g.empty()) return -1; auto it = g.begin(); std::advance(it, rnd(0, g.size() - 1)); return it->first; };
	// acyclic: an observer only depends on subjects that cannot reach it
	std::function<bool(long, long)> reach = [&](long from, long to) -> bool
	{
		if (from == to) return true;
		for (long s : g[from]) if (s >= 0 && reach(s, to)) return true;
		return false;
	};
	size_t len = rnd(3, 22);
	for (size_t st = 0; st < len; st++)
	{
		int op = rnd(0, 11);
		long a = pick(), b = pick();
		std::ostringstream d;
		if (a < 0 || op <= 2)
		{
			std::vector<long> deps; std::vector<subject*> sd;
			for (size_t i = 0, n = rnd(0, 3); i < n && false == g.empty(); i++) { long p = coin(8) ? -1 : pick(); deps.push_back(p); sd.push_back(p < 0 ? nullptr : LIVE[p]); }
			bool fr = coin();
			d << "new" << NEXT << (fr ? "!" : "") << str(deps); h += d.str() + ";";
			begin("bare history", h);
			Obj* o = new Obj(sd, fr);
			g[o->id] = deps; FRAG[o->id] = fr;
		}
		else if (op == 3)
		{
			if (reach(b, a)) continue;
			d << "add(" << a << "," << b << ")"; h += d.str() + ";"; begin("bare history", h);
			LIVE[a]->add_dependency(LIVE[b]);
			g[a].push_back(b);
		}
		else if (op == 4 || op == 5)
		{
			size_t i = rnd(0, 4);
			bool null = coin(5);
			if (false == null && reach(b, a)) continue;
			d << "replace(" << a << "," << i << "," << (null ? -1 : b) << ")"; h += d.str() + ";"; begin("bare history", h);
			LIVE[a]->replace_dependency(null ? nullptr : (subject*) LIVE[b], i);
			if (g[a].size() <= i) g[a].resize(i + 1, -1);
			g[a][i] = null ? -1 : b;
		}
		else if (op == 6)
		{
			size_t i = rnd(0, 4), sz = LIVE[a]->dependencies_.size();
			d << "remove(" << a << "," << i << ")"; h += d.str() + ";"; begin("bare history", h);
			bool thrown = false;
			try { LIVE[a]->remove_dependency(i); } catch (const std::exception&) { thrown = true; }
			RV_CHECK(thrown == (i >= sz), "C13:remove-range", "removing position " << i << " of " << sz << (thrown ? " threw" : " did not throw"));
			if (i < g[a].size() && g[a][i] >= 0) { g[a][i] = -1; trim(g[a]); }
		}
		else if (op == 7 || op == 8)
		{
			d << "delete" << a; h += d.str() + ";"; begin("bare history", h);
			delete LIVE[a];
			rg_kill(g, a);
		}
		else if (op == 9)
		{
			// copy: same subjects at the same positions (holes are closed up, so only hole-free observers are copied)
			if (std::count(g[a].begin(), g[a].end(), -1)) continue;
			if (coin())
			{
				d << "copy" << NEXT << "=" << a; h += d.str() + ";"; begin("bare history", h);
				Obj* o = new Obj(*LIVE[a]);
				g[o->id] = g[a]; FRAG[o->id] = FRAG[a];
			}
			else
			{
				bool bad = false;
				for (long s : g[a]) bad = bad || reach(s, b);
				if (bad) continue;
				d << "assign" << b << "=" << a; h += d.str() + ";"; begin("bare history", h);
				*static_cast<iobserver*>(LIVE[b]) = *static_cast<const iobserver*>(LIVE[a]);
				g[b] = g[a];
			}
		}
		else if (op == 10)
		{
			// a subject that has observers throughout is never told that it lost the last one
			std::set<long> observed;
			for (auto& l : LIVE) { l.second->orphaned = 0; if (l.first != a && false == l.second->no_audience()) observed.insert(l.first); }
			if (coin())
			{
				// a moved object hands over its subjects and its observers
				d << "move" << NEXT << "=" << a; h += d.str() + ";"; begin("bare history", h);
				Obj* o = new Obj(std::move(*LIVE[a]));
				g[o->id] = g[a]; g[a].clear(); FRAG[o->id] = FRAG[a];
				for (auto& x : g) for (long& s : x.second) if (s == a) s = o->id;
			}
			else
			{
				bool bad = a == b;
				for (long s : g[a]) bad = bad || s >= 0 && reach(s, b);
				if (bad) continue;
				d << "moveassign" << b << "=" << a; h += d.str() + ";"; begin("bare history", h);
				*static_cast<iobserver*>(LIVE[b]) = std::move(*static_cast<iobserver*>(LIVE[a]));
				g[b] = g[a]; g[a].clear();
			}
			for (auto& l : LIVE) if (observed.count(l.first) && false == l.second->no_audience())
				RV_CHECK(0 == l.second->orphaned, "C13:moved-orphan", "subject " << l.first << " was told it has no observers while its observer was being moved");
		}
		else
		{
			bool bad = a == b || reach(b, a);
			for (auto& x : g) if (std::count(x.second.begin(), x.second.end(), a)) bad = bad || reach(b, x.first);
			if (bad) continue;
			d << "steal(" << b << "<-" << a << ")"; h += d.str() + ";"; begin("bare history", h);
			if (coin()) LIVE[b]->steal_observers(LIVE[a]);
			else *static_cast<subject*>(LIVE[b]) = std::move(*static_cast<subject*>(LIVE[a]));
			for (auto& x : g) for (long& s : x.second) if (s == a) s = b;
		}
		edges_agree(g, "C13:edges");
		if (false == C().failed.empty()) return;
		// an update reaches every observer once, with its positions
		if (coin(4) && false == g.empty())
		{
			long s = pick();
			for (auto& l : LIVE) l.second->got.clear();
			UPDATES = 0;
			LIVE[s]->notify(UPDATE);
			long n = 0;
			for (auto& o : g)
			{
				std::vector<size_t> pos;
				for (size_t i = 0; i < o.second.size(); i++) if (o.second[i] == s) pos.push_back(i);
				if (false == pos.empty()) n++;
				RV_CHECK(LIVE[o.first]->got == pos, "C13:notify", "observer " << o.first << " of " << s << " was told positions " << str(LIVE[o.first]->got) << ", expected " << str(pos));
			}
			RV_CHECK(UPDATES == n, "C13:notify-once", UPDATES << " notifications for " << n << " observers");
		}
	}
	// destroying everything, in any order
	while (false == g.empty())
	{
		long a = pick();
		h += "delete" + std::to_string(a) + ";"; begin("bare history", h);
		delete LIVE[a];
		rg_kill(g, a);
		edges_agree(g, "C13:teardown");
		if (false == C().failed.empty()) return;
	}
}

//==================================================================== real graphs
enum Op { VAR, PLACE, CONST, SIN, COS, NEG, ABS, ADDS, SMUL, SSUB, ADD, SUB, MUL, CLONE, NOPS };
static const char* NAME[] = {"var", "place", "const", "sin", "cos", "-", "+", "adds", "smul", "ssub", "add", "sub", "mul", "clone"};
struct Rec
{
	int op; int a = -1, b = -1; double s = 0;
	std::vector<double> val;     // leaves: current value
	bool init = true;            // leaves: has a value
	vp real;
	std::string expr;
	size_t n;
};
struct World
{
	std::deque<Rec> R;
	size_t n;
	std::string h;
};
struct Val { bool ok; std::vector<ld> v; ld mag; };
static Val value (World& W, int i)
{
	Rec& r = W.R[i];
	if (r.op <= CONST) { Val o{r.init, std::vector<ld>(r.val.begin(), r.val.end()), 1}; for (ld x : o.v) o.mag = std::max(o.mag, fabsl(x)); return o; }
	Val a = value(W, r.a);
	if (r.op == CLONE) return a;
	Val b = r.b >= 0 ? value(W, r.b) : a;
	Val o{a.ok && b.ok, {}, std::max(a.mag, b.mag)};
	if (false == o.ok) return o;
	size_t n = std::max(a.v.size(), b.v.size());
	for (size_t k = 0; k < n; k++)
	{
		ld x = a.v[a.v.size() == 1 ? 0 : k], y = b.v[b.v.size() == 1 ? 0 : k], z = 0;
		switch (r.op)
		{
			case SIN: z = sinl(x); break; case COS: z = cosl(x); break; case NEG: z = -x; break; case ABS: z = fabsl(x); break;
			case ADDS: z = x + r.s; break; case SMUL: z = r.s * x; break; case SSUB: z = r.s - x; break;
			case ADD: z = x + y; break; case SUB: z = x - y; break; default: z = x * y;
		}
		o.v.push_back(z); o.mag = std::max(o.mag, fabsl(z));
	}
	return o;
}
static vp build (World& W, Rec& r)
{
	vp a = W.R[r.a].real, b = r.b >= 0 ? W.R[r.b].real : vp(nullptr);
	switch (r.op)
	{
		case SIN: return nnet::sin<double>(a);
		case COS: return nnet::cos<double>(a);
		case NEG: return -a;
		case ABS: return +a;
		case ADDS: return a + r.s;
		case SMUL: return r.s * a;
		case SSUB: return r.s - a;
		case ADD: return a + b;
		case SUB: return a - b;
		case MUL: return a * b;
		default: return a->clone();
	}
}
static void read_agrees (World& W, int i, const std::string& key)
{
	Rec& r = W.R[i];
	inode<double>* p = r.real.get();
	if (nullptr == p) return;
	Val want = value(W, i);
	const tensor<double>* t = p->eval();
	if (false == want.ok)
	{
		// a simplification may drop a leaf that has no value yet; otherwise nothing is readable
		return;
	}
	if (want.mag > 1e6L) return;
	RV_CHECK(t != nullptr && t->is_alloc(), key + ":unreadable", "node #" << i << " = " << r.expr << " has no value although every leaf has");
	if (nullptr == t || false == t->is_alloc()) return;
	std::vector<double> got = t->expose();
	RV_CHECK(got.size() == want.v.size() || got.size() == 1, key + ":size", "node #" << i << " = " << r.expr << " has " << got.size() << " elements, expected " << want.v.size());
	if (got.size() != want.v.size() && got.size() != 1) return;
	for (size_t k = 0; k < want.v.size(); k++)
	{
		double g = got[got.size() == 1 ? 0 : k];
		RV_CHECK(std::fabs(g - (double) want.v[k]) <= 1e-9 * (double) want.mag, key, "node #" << i << " = " << r.expr << " reads " << lit(g) << " at " << k << ", its leaves give " << lit((double) want.v[k]));
	}
}
static int alive (World& W, std::function<bool(Rec&)> ok)
{
	std::vector<int> c;
	for (size_t i = 0; i < W.R.size(); i++) if (W.R[i].real.get() && ok(W.R[i])) c.push_back(i);
	return c.empty() ? -1 : c[coin() ? c.size() - 1 - rnd(0, std::min<size_t>(c.size() - 1, 3)) : rnd(0, c.size() - 1)];
}
static bool any (Rec&) { return true; }
static void new_leaf (World& W, int kind)
{
	W.R.emplace_back();
	Rec& r = W.R.back();
	r.op = kind; r.n = coin(4) ? 1 : W.n;
	r.val = rvecd(r.n, -1.5, 1.5);
	tensorshape sh(dims_t{r.n});
	std::string nm = std::string(NAME[kind]) + std::to_string(W.R.size() - 1);
	if (kind == VAR)
	{
		vec_init in(r.val);
		variable<double>* v = new variable<double>(sh, in, nm);
		r.real = v;
		if (coin(6)) r.init = false; else v->initialize();
	}
	else if (kind == PLACE)
	{
		placeholder<double>* p = new placeholder<double>(sh, nm);
		r.real = p;
		if (coin(6)) r.init = false; else *p = r.val;
	}
	else r.real = constant<double>::get(r.val, sh);
	r.expr = nm + "[" + std::to_string(r.n) + "]" + (r.init ? "" : "?");
	W.h += "#" + std::to_string(W.R.size() - 1) + "=" + r.expr + ";";
}
static bool new_op (World& W, bool clones)
{
	int o = rnd(SIN, clones ? CLONE : MUL), a = alive(W, any), b = alive(W, any);
	if (o == CLONE) a = alive(W, [](Rec& r) { return nullptr != dynamic_cast<iconnector<double>*>(r.real.get()); });
	if (a < 0) return false;
	Rec r;
	r.op = o; r.a = a; r.b = o >= ADD && o <= MUL ? b : -1;
	r.s = coin(3) ? (double) rnd(0, 2) - 1 : rndd(-2, 2);
	r.n = std::max(W.R[a].n, r.b >= 0 ? W.R[b].n : 1);
	if (W.R[a].expr.size() + (r.b >= 0 ? W.R[b].expr.size() : 0) > 200) return false;
	r.expr = std::string(NAME[o]) + "(#" + std::to_string(a) + (r.b >= 0 ? ",#" + std::to_string(b) : "") + (o >= ADDS && o <= SSUB ? "," + lit(r.s) : "") + ")";
	W.h += "#" + std::to_string(W.R.size()) + "=" + r.expr + ";";
	begin("graph history", W.h);
	r.real = build(W, r);
	W.R.push_back(r);
	return true;
}
static void set_leaf (World& W)
{
	int i = alive(W, [](Rec& r) { return r.op <= PLACE; });
	if (i < 0) return;
	Rec& r = W.R[i];
	std::vector<double> nv = rvecd(r.n, -1.5, 1.5);
	if (r.op == PLACE)
	{
		if (coin(4))
		{
			W.h += "feed-tensor#" + std::to_string(i) + ";"; begin("graph history", W.h);
			tensor<double> t(tensorshape(dims_t{r.n}));
			vec_init in(nv); in(t);
			*static_cast<placeholder<double>*>(r.real.get()) = t;
		}
		else
		{
			W.h += "feed#" + std::to_string(i) + ";"; begin("graph history", W.h);
			*static_cast<placeholder<double>*>(r.real.get()) = nv;
		}
		r.val = nv; r.init = true;
		return;
	}
	variable<double>* v = static_cast<variable<double>*>(r.real.get());
	if (false == r.init || coin(6))
	{
		W.h += "init#" + std::to_string(i) + ";"; begin("graph history", W.h);
		vec_init in(nv);
		v->set_initializer(in);
		v->initialize();
		r.val = nv; r.init = true;
		return;
	}
	int j = alive(W, [&](Rec& x) { return x.n == r.n && x.real.get()->get_shape().n_elems() == r.n; });
	int mode = rnd(0, 2);
	static const char* MN[] = {"assign", "assign_add", "assign_sub"};
	auto upd = [&](inode<double>* src) { return mode == 0 ? v->assign(src) : mode == 1 ? v->assign_add(src) : v->assign_sub(src); };
	std::vector<double> src;
	if (j >= 0 && coin() && value(W, j).ok)
	{
		Val s = value(W, j);
		if (s.v.size() != r.n || s.mag > 100) return;
		src.assign(s.v.begin(), s.v.end());
		W.h += std::string(MN[mode]) + "#" + std::to_string(i) + "<-#" + std::to_string(j) + ";"; begin("graph history", W.h);
		upd(W.R[j].real.get())(true);
	}
	else
	{
		src = nv;
		W.h += std::string(MN[mode]) + "#" + std::to_string(i) + ";"; begin("graph history", W.h);
		vp c = constant<double>::get(nv, tensorshape(dims_t{r.n}));
		upd(c.get())(true);
	}
	for (size_t k = 0; k < r.n; k++) r.val[k] = mode == 0 ? src[k] : mode == 1 ? r.val[k] + src[k] : r.val[k] - src[k];
	for (double x : r.val) if (std::fabs(x) > 100) { upd(r.real.get()); }
}
// structural invariant of real nodes: every edge is recorded at both ends
static std::set<inode<double>*> reach_nodes (World& W)
{
	std::set<inode<double>*> seen;
	std::vector<inode<double>*> todo;
	for (Rec& r : W.R) if (r.real.get()) todo.push_back(r.real.get());
	while (false == todo.empty())
	{
		inode<double>* x = todo.back(); todo.pop_back();
		if (nullptr == x || false == seen.insert(x).second) continue;
		for (inode<double>* a : x->get_arguments()) todo.push_back(a);
		for (auto& ap : x->audience_) if (inode<double>* y = dynamic_cast<inode<double>*>(ap.first)) todo.push_back(y);
	}
	return seen;
}
static void structure (World& W, const std::string& key)
{
	for (inode<double>* x : reach_nodes(W))
	{
		for (auto& ap : x->audience_)
		{
			RV_CHECK(false == ap.second.empty(), key + ":empty", "a subject keeps an observer without positions");
			for (size_t i : ap.second)
				RV_CHECK(i < ap.first->dependencies_.size() && ap.first->dependencies_[i] == (subject*) x, key + ":registration", "node " << x->get_label() << " registers position " << i << " of an observer that does not depend on it there");
		}
		if (iobserver* o = dynamic_cast<iobserver*>(x))
			for (size_t i = 0; i < o->dependencies_.size(); i++)
				if (subject* s = o->dependencies_[i])
				{
					auto it = s->audience_.find(o);
					RV_CHECK(it != s->audience_.end() && it->second.count(i), key + ":unregistered", "node " << x->get_label() << " depends at position " << i << " on a subject that does not know it");
				}
	}
}
static void del (World& W)
{
	int i = alive(W, [](Rec& r) { return r.op != CONST || true; });
	if (i < 0) return;
	inode<double>* x = W.R[i].real.get();
	std::set<inode<double>*> dead;
	std::vector<inode<double>*> todo = {x};
	while (false == todo.empty())
	{
		inode<double>* y = todo.back(); todo.pop_back();
		if (false == dead.insert(y).second) continue;
		for (auto& ap : y->audience_) if (inode<double>* z = dynamic_cast<inode<double>*>(ap.first)) todo.push_back(z);
	}
	std::vector<bool> exp;
	for (Rec& r : W.R) exp.push_back(r.real.get() && false == (bool) dead.count(r.real.get()));
	W.h += "delete#" + std::to_string(i) + ";"; begin("graph history", W.h);
	delete x;
	for (size_t k = 0; k < W.R.size(); k++)
		RV_CHECK(exp[k] == (nullptr != W.R[k].real.get()), "C13:destroyed", "after destroying #" << i << " node #" << k << " = " << W.R[k].expr << (exp[k] ? " is gone though it does not depend on it" : " survives though it cannot work without it"));
}
// a moved node hands its observers, its arguments and its value to the new one
static void move_node (World& W)
{
	int i = alive(W, [](Rec& r) { return nullptr != dynamic_cast<immutable<double>*>(r.real.get()); });
	if (i < 0) return;
	W.h += "move#" + std::to_string(i) + ";"; begin("graph history", W.h);
	inode<double>* x = W.R[i].real.get();
	inode<double>* y = x->move();
	RV_CHECK(W.R[i].real.get() == y, "C13:moved", "a moved node kept its observers");
	RV_CHECK(x->no_audience() && x->get_arguments().empty(), "C13:moved-from", "a moved-from node keeps observers or arguments");
	delete x;
}
static void cleanup (World& W)
{
	for (Rec& r : W.R) if (r.op <= PLACE && r.real.get()) delete r.real.get();
	for (Rec& r : W.R) if (r.real.get() && r.op != CONST) delete r.real.get();
	W.R.clear();
}
static void graph_history (bool reads, bool deletes)
{
	World W;
	W.n = rnd(1, 4);
	for (size_t i = 0, n = rnd(1, 4); i < n; i++) new_leaf(W, rnd(0, 9) < 5 ? VAR : coin(4) ? CONST : PLACE);
	bool clones = coin(3);
	size_t len = rnd(4, 30);
	for (size_t s = 0; s < len && C().failed.empty(); s++)
	{
		int o = rnd(0, 9);
		if (o <= 3) new_op(W, clones);
		else if (o <= 6) set_leaf(W);
		else if (o == 7 && reads)
		{
			int i = alive(W, any);
			if (i >= 0) { W.h += "read#" + std::to_string(i) + ";"; begin("graph history", W.h); read_agrees(W, i, "C14:read"); }
		}
		else if (o == 8 && deletes && coin(3)) del(W);
		else if (o == 9 && coin(3)) new_leaf(W, rnd(0, 2));
		else if (o == 9 && coin()) move_node(W);
		if (false == reads) structure(W, "C13:graph");
	}
	if (C().failed.empty())
	{
		std::vector<int> order;
		for (size_t i = 0; i < W.R.size(); i++) order.push_back(i);
		std::shuffle(order.begin(), order.end(), C().rng);
		for (int i : order) { begin("graph history", W.h + "read#" + std::to_string(i)); if (reads) read_agrees(W, i, "C14:final-read"); }
		structure(W, "C13:graph-end");
	}
	if (C().failed.empty()) { begin("graph history", W.h + "cleanup"); cleanup(W); }
}

//==================================================================== gradients do not disturb edges
static void gradient_history (void)
{
	World W;
	W.n = rnd(1, 3);
	for (size_t i = 0, n = rnd(1, 3); i < n; i++) new_leaf(W, VAR);
	for (size_t i = 0, n = rnd(1, 8); i < n; i++) new_op(W, false);
	for (size_t i = 0, n = rnd(1, 3); i < n; i++)
	{
		int x = alive(W, [](Rec& r) { return r.op > CONST; }), v = alive(W, [](Rec& r) { return r.op == VAR && r.init; });
		if (x < 0 || v < 0 || false == value(W, x).ok) continue;
		W.h += "derive#" + std::to_string(x) + "/#" + std::to_string(v) + ";"; begin("gradient history", W.h);
		vp g = W.R[x].real->derive(W.R[v].real.get());
		structure(W, "C13:gradient");
		if (coin(3)) { del(W); structure(W, "C13:gradient-delete"); }
	}
	if (C().failed.empty()) cleanup(W);
}

static void c13 (void)
{
	while (more() && C().failed.empty())
	{
		for (int i = 0; i < 30 && C().failed.empty(); i++) bare_history();
		for (int i = 0; i < 5 && C().failed.empty(); i++) graph_history(false, true);
		if (C().failed.empty()) gradient_history();
	}
}
//==================================================================== reads after an update that could not be carried out
static void refused_history (void)
{
	std::string h;
	size_t n = rnd(1, 4), np = rnd(1, 3), steps = rnd(2, 8);
	std::vector<placeholder<double>*> P;
	std::vector<std::vector<double> > val;
	std::vector<vp> N;
	struct expr { int op; size_t a, b; };
	std::vector<expr> X;
	auto feed = [&](size_t i, size_t len)
	{
		std::vector<double> v = rvec(len);
		h += "feed#" + std::to_string(i) + str(v) + ";"; begin("refused update", h);
		bool threw = false;
		try
		{
			tensor<double> t{tensorshape(dims_t{len})};
			std::copy(v.begin(), v.end(), t.raw_data_);
			*P[i] = t;
		}
		catch (std::exception&) { threw = true; }
		RV_CHECK(len != n || false == threw, "C14:feed-threw", "feeding data of the right size threw");
		if (len == n) val[i] = v;
	};
	for (size_t i = 0; i < np; i++)
	{
		P.push_back(new placeholder<double>(tensorshape(dims_t{}), "p"));
		val.push_back({});
	}
	for (size_t i = 0; i < np; i++) { feed(i, n); N.push_back(vp(P[i])); X.push_back({0, i, i}); }
	for (size_t i = 0, k = rnd(1, 8); i < k && C().failed.empty(); i++)
	{
		expr e{rnd(1, 4), (size_t) rnd(0, N.size() - 1), (size_t) rnd(0, N.size() - 1)};
		h += (e.op == 1 ? "add" : e.op == 2 ? "mul" : e.op == 3 ? "sin" : "scale") + std::string("(#") + std::to_string(e.a) + ",#" + std::to_string(e.b) + ");";
		begin("refused update", h);
		N.push_back(e.op == 1 ? N[e.a] + N[e.b] : e.op == 2 ? N[e.a] * N[e.b] : e.op == 3 ? nnet::sin<double>(N[e.a]) : N[e.a] * 2.5);
		X.push_back(e);
	}
	auto check = [&]()
	{
		std::vector<std::vector<double> > want;
		for (size_t k = 0; k < N.size() && C().failed.empty(); k++)
		{
			const expr& e = X[k];
			std::vector<double> w(n);
			for (size_t j = 0; j < n; j++)
				w[j] = e.op == 0 ? val[e.a][j] : e.op == 1 ? want[e.a][j] + want[e.b][j] : e.op == 2 ? want[e.a][j] * want[e.b][j] : e.op == 3 ? ::sin(want[e.a][j]) : want[e.a][j] * 2.5;
			want.push_back(w);
			const tensor<double>* t = N[k]->eval();
			RV_CHECK(nullptr != t && t->expose().size() == n, "C14:refused-missing", "node #" << k << " has no value of " << n << " elements");
			std::vector<double> got = t->expose();
			for (size_t j = 0; j < n; j++) RV_CHECK(close(got[j], w[j]), "C14:refused-stale", "node #" << k << " reads " << str(got) << ", its expression is " << str(w));
		}
	};
	check();
	for (size_t s = 0; s < steps && C().failed.empty(); s++)
	{
		std::vector<size_t> bad;
		for (size_t i = 0; i < np; i++) if (coin(3)) { feed(i, n + rnd(1, 3)); bad.push_back(i); }
		for (int i = rnd(0, 2); i > 0; i--)
		{
			size_t k = rnd(0, N.size() - 1);
			h += "read#" + std::to_string(k) + ";"; begin("refused update", h);
			try { N[k]->eval(); } catch (std::exception&) {}
		}
		// feeding throws until every placeholder holds data of the agreed size again
		for (size_t i : bad) feed(i, n);
		if (bad.empty()) feed(rnd(0, np - 1), n);
		if (coin()) check();
	}
	if (C().failed.empty()) check();
	if (C().failed.empty()) for (auto p : P) delete p;
}
static void c14 (void)
{
	while (more() && C().failed.empty())
	{
		graph_history(true, coin(3));
		if (coin(4) && C().failed.empty()) refused_history();
	}
}

//==================================================================== C15 variables
static bool plain (const tensorshape& s) { return s.is_fully_defined(); }
static void c15_history (void)
{
	dims_t d = rshape(1, 3, 1, 4, 24);
	size_t n = nelems(d);
	std::ostringstream ds; ds << "var" << str(d);
	std::string h = ds.str() + ";";
	std::vector<double> iv = rvecd(n, -3, 3);
	bool partial = coin(3);
	dims_t decl = d;
	if (partial) decl[rnd(0, d.size() - 1)] = 0;
	vec_init in(iv);
	begin("variable history", h);
	std::unique_ptr<variable<double> > v;
	if (coin(4)) { v.reset(new variable<double>(tensorshape(decl), "v")); RV_CHECK(false == v->can_init(), "C15:can_init", "a variable without initialiser claims it can be initialised"); v->set_initializer(in); }
	else v.reset(new variable<double>(tensorshape(decl), in, "v"));
	std::unique_ptr<variable<double> > other(new variable<double>(tensorshape(d), in, "w"));
	other->initialize();
	std::vector<double> oval = iv, val;
	bool inited = false;
	vp dep = nnet::sin<double>(v.get());
	vp dep2 = vp(v.get()) + vp(other.get());
	auto see = [&](const char* when)
	{
		const tensor<double>* t = v->eval();
		if (false == inited)
		{
			RV_CHECK(nullptr == t && false == v->good_status(), "C15:uninitialised-readable", when << ": a variable that was never initialised has a value");
			return;
		}
		RV_CHECK(nullptr != t && v->good_status(), "C15:unreadable", when << ": an initialised variable has no value");
		if (nullptr == t) return;
		RV_CHECK(t->expose() == val, "C15:value", when << ": the variable holds " << str(t->expose()) << ", expected " << str(val));
		RV_CHECK(t->get_shape().as_list() == d, "C15:shape", when << ": the variable has shape " << str(t->get_shape().as_list()) << ", expected " << str(d));
		RV_CHECK(other->eval()->expose() == oval, "C15:other", when << ": another variable changed to " << str(other->eval()->expose()));
		RV_CHECK(other->eval()->raw_data_ != t->raw_data_, "C15:shared", when << ": two variables share storage");
	};
	auto deps_see = [&](const char* when)
	{
		if (false == inited) return;
		std::vector<double> a = expose<double>(dep.get()), b = expose<double>(dep2.get());
		for (size_t i = 0; i < n; i++)
		{
			RV_CHECK(a.size() == n && close(a[i], ::sin(val[i])), "C15:dependant", when << ": a dependant was not updated");
			RV_CHECK(b.size() == n && close(b[i], val[i] + oval[i]), "C15:dependant-sum", when << ": a dependant of two variables was not updated");
		}
	};
	see("before initialisation");
	if (partial && coin())
	{
		// a shape the variable does not allow is refused and nothing changes
		dims_t bad = d;
		size_t ax = 0;
		while (ax < bad.size() && decl[ax] == 0) ax++;
		if (ax < bad.size())
		{
			bad[ax] += 1;
			if (false == tensorshape(decl).is_compatible_with(tensorshape(bad)))
			{
				h += "init" + str(bad) + ";"; begin("variable history", h);
				bool thrown = false;
				try { v->initialize(tensorshape(bad)); } catch (const std::exception&) { thrown = true; }
				RV_CHECK(thrown, "C15:bad-shape-accepted", "initialising " << str(decl) << " as " << str(bad) << " was accepted");
				see("after a refused initialisation");
			}
		}
		bool thrown = false;
		begin("variable history", h + "init-undefined");
		try { v->initialize(); } catch (const std::exception&) { thrown = true; }
		RV_CHECK(thrown, "C15:undefined-shape-initialised", "a variable with unknown dimensions " << str(decl) << " was initialised without a shape");
		see("after initialising without a shape");
	}
	h += "initialize;"; begin("variable history", h);
	std::vector<double> ret = partial ? v->initialize(tensorshape(d)).expose() : v->initialize().expose();
	inited = true; val = iv;
	RV_CHECK(ret == val, "C15:init-result", "initialisation returned " << str(ret));
	see("after initialisation"); deps_see("after initialisation");
	if (partial && coin(3))
	{
		// an initialised variable may be given another shape it allows; a shape it does not allow is refused
		dims_t e = d;
		size_t ax = 0;
		while (ax < e.size() && decl[ax]) ax++;
		bool allowed = coin();
		if (false == allowed) { ax = 0; while (ax < decl.size() && 0 == decl[ax]) ax++; }
		if (ax < e.size())
		{
			e[ax] += rnd(1, 2);
			h += "again" + str(e) + ";"; begin("variable again", h);
			variable<double> u(tensorshape(decl), in, "u");
			u.initialize(tensorshape(d));
			bool thrown = false;
			std::vector<double> r;
			try { r = u.initialize(tensorshape(e)).expose(); } catch (const std::exception&) { thrown = true; }
			const tensor<double>* ut = u.eval();
			if (false == allowed)
			{
				RV_CHECK(thrown, "C15:again-bad-shape-accepted", "an initialised variable of " << str(decl) << " was given shape " << str(e));
				RV_CHECK(ut && ut->get_shape().as_list() == d && ut->expose() == iv, "C15:again-refused", "a refused shape changed the variable");
			}
			else
			{
				RV_CHECK(false == thrown && ut && ut->get_shape().as_list() == e, "C15:again-shape", "initialising " << str(d) << " again as " << str(e) << " leaves shape " << (ut ? str(ut->get_shape().as_list()) : "none"));
				if (ut && r.size()) for (size_t k = 0; k < nelems(e); k++) RV_CHECK(ut->expose()[k] == iv[k % iv.size()], "C15:again-value", "element " << k << " is not the initialiser's");
			}
		}
	}
	std::vector<std::unique_ptr<variable<double> > > copies;
	std::vector<std::vector<double> > cval;
	std::vector<variable_updater<double> > kept;
	for (size_t s = 0, len = rnd(1, 10); s < len && C().failed.empty(); s++)
	{
		int o = rnd(0, 9), mode = rnd(0, 2);
		bool notify = coin();
		static const char* MN[] = {"assign", "assign_add", "assign_sub"};
		auto upd = [&](inode<double>* src) { return mode == 0 ? v->assign(src) : mode == 1 ? v->assign_add(src) : v->assign_sub(src); };
		auto ref = [&](const std::vector<double>& src) { for (size_t k = 0; k < n; k++) val[k] = mode == 0 ? src[k] : mode == 1 ? val[k] + src[k] : val[k] - src[k]; };
		std::string tag = std::string(MN[mode]) + (notify ? "!" : "");
		if (o <= 2)
		{
			std::vector<double> src = coin(6) ? std::vector<double>(n, 0.0) : rvecd(n, -3, 3);
			if (n == 1 && coin(3)) src[0] = 0;
			vp c = constant<double>::get(src, tensorshape(d));
			h += tag + "(const);"; begin("variable history", h);
			upd(c.get())(notify);
			ref(src);
		}
		else if (o == 3)
		{
			h += tag + "(w);"; begin("variable history", h);
			upd(other.get())(notify);
			ref(oval);
		}
		else if (o == 4)
		{
			h += tag + "(self);"; begin("variable history", h);
			std::vector<double> src = val;
			upd(v.get())(notify);
			ref(src);
		}
		else if (o == 5)
		{
			h += tag + "(dep2);"; begin("variable history", h);
			// evaluated when the update runs
			v->notify(UPDATE);
			std::vector<double> src;
			for (size_t k = 0; k < n; k++) src.push_back(val[k] + oval[k]);
			auto u = upd(dep2.get());
			u(notify);
			std::vector<double> before = val;
			ref(src);
			for (size_t k = 0; k < n; k++) if (v->eval()->raw_data_[k] != val[k] && close(v->eval()->raw_data_[k], val[k], 1e-12)) val[k] = v->eval()->raw_data_[k];
		}
		else if (o == 6)
		{
			// an update runs as often as it is called, on the value of that moment
			vp c = constant<double>::get(std::vector<double>(n, 0.5), tensorshape(d));
			h += tag + "(half)x2;"; begin("variable history", h);
			auto u = upd(c.get());
			u(notify); u(notify);
			ref(std::vector<double>(n, 0.5)); ref(std::vector<double>(n, 0.5));
		}
		else if (o == 7)
		{
			h += "reinit;"; begin("variable history", h);
			iv = rvecd(n, -3, 3);
			vec_init i2(iv);
			v->set_initializer(i2);
			v->initialize(); val = iv; notify = true;
		}
		else if (o == 8)
		{
			h += "copy;"; begin("variable history", h);
			copies.emplace_back(v->clone());
			cval.push_back(val);
			notify = false;
		}
		else
		{
			h += "copy-assign;"; begin("variable history", h);
			*v = *other;
			val = oval; iv = oval; notify = true;
		}
		for (size_t k = 0; k < copies.size(); k++)
		{
			RV_CHECK(copies[k]->eval() && copies[k]->eval()->expose() == cval[k], "C15:copy-changed", "a copy of the variable changed with it");
			if (copies[k]->eval()) RV_CHECK(copies[k]->eval()->raw_data_ != v->eval()->raw_data_, "C15:copy-shares", "a copy shares storage");
		}
		if (false == copies.empty() && coin(3))
		{
			size_t k = rnd(0, copies.size() - 1);
			vp c = constant<double>::get(std::vector<double>(n, 7.0), tensorshape(d));
			h += "assign-copy;"; begin("variable history", h);
			copies[k]->assign(c.get())(true);
			cval[k].assign(n, 7.0);
		}
		see(h.c_str());
		if (notify) deps_see(h.c_str());
		bool big = false;
		for (double x : val) big = big || std::fabs(x) > 1e3;
		if (big) break;
	}
	// a source of another size is refused
	if (coin(10) && C().failed.empty())
	{
		dims_t bad = {n + 1};
		bool small = coin();
		variable<double> src(tensorshape(small && n > 1 ? dims_t{n - 1} : bad), in, "bad");
		src.initialize();
		h += "bad source;"; begin("variable refusal", h);
		int r = refused([&]() { auto before = v->eval()->expose(); v->assign(&src)(false); return v->eval()->expose() != before; });
		RV_CHECK(r == 0 || r == 3, "C15:bad-source", "a source of " << src.get_shape().n_elems() << " elements was assigned to " << n << (r == 2 ? " and broke the process" : ""));
	}
	if (dep.get()) delete dep.get();
	if (dep2.get()) delete dep2.get();
}
static void c15_scalar (void)
{
	double x = rval(), y = rval();
	begin("scalar variable", lit(x) + "," + lit(y));
	variable<double> v(x, "s");
	RV_CHECK(v.eval() && v.eval()->expose() == std::vector<double>{x}, "C15:scalar", "scalar variable of " << lit(x) << " holds something else");
	vp c = constant<double>::get(y);
	int m = rnd(0, 2);
	auto u = m == 0 ? v.assign(c.get()) : m == 1 ? v.assign_add(c.get()) : v.assign_sub(c.get());
	u(true);
	double w = m == 0 ? y : m == 1 ? x + y : x - y;
	RV_CHECK(v.eval()->expose()[0] == w, "C15:scalar-assign", "mode " << m << " of " << lit(y) << " on " << lit(x) << " gives " << lit(v.eval()->expose()[0]));
}
static void c15 (void) { while (more() && C().failed.empty()) { c15_history(); c15_scalar(); } }

//==================================================================== C16 placeholders
static bool holds (const dims_t& decl, size_t m)
{
	if (decl.empty()) return m > 0;
	size_t k = 1; bool unk = false;
	for (size_t x : decl) { if (x) k *= x; else unk = true; }
	return m > 0 && (unk ? m % k == 0 : m == k);
}
static bool fits_decl (const dims_t& decl, const dims_t& s)
{
	if (decl.empty()) return s.size() == 1;
	if (decl.size() != s.size()) return false;
	for (size_t i = 0; i < s.size(); i++) if (decl[i] && decl[i] != s[i]) return false;
	return true;
}
// what an observer sees at the moment it is told about a change
struct watcher : public iobserver
{
	placeholder<double>& p; long told = 0; bool ready = false; std::vector<double> seen;
	virtual std::string get_label (void) const { return "watcher"; }
	watcher (placeholder<double>& pl) : iobserver(std::vector<subject*>{&pl}), p(pl) {}
	virtual void update (std::unordered_set<size_t>) { told++; ready = p.good_status() && nullptr != p.eval(); seen = ready ? p.eval()->expose() : std::vector<double>(); }
	virtual void death_on_broken (void) {}
};
static void c16_history (void)
{
	dims_t decl = rshape(coin(8) ? 0 : 1, 3, 0, 4, 24);
	std::string h = "place" + str(decl) + ";";
	begin("placeholder history", h);
	placeholder<double> p{tensorshape(decl), "p"};
	variable<double> w(1.5, "w");
	placeholder<double> q{tensorshape(dims_t{2}), "q"};
	q = std::vector<double>{4, 5};
	vp dep = nnet::cos<double>(&p);
	vp dep2 = vp(&p) * vp(&w);
	watcher wat(p);
	bool fed = false;
	std::vector<double> val;
	dims_t sh;
	auto see = [&]()
	{
		const tensor<double>* t = p.eval();
		if (false == fed)
		{
			RV_CHECK(nullptr == t && false == p.good_status(), "C16:unfed-readable", h << " a placeholder that was never fed has a value");
			return;
		}
		RV_CHECK(nullptr != t && p.good_status(), "C16:unreadable", h << " a fed placeholder has no value");
		if (nullptr == t) return;
		RV_CHECK(t->expose() == val, "C16:value", h << " holds " << str(t->expose()) << ", fed " << str(val));
		dims_t s = t->get_shape().as_list();
		RV_CHECK(nelems(s) == val.size() && (sh.empty() ? fits_decl(decl, s) : s == sh), "C16:shape", h << " has shape " << str(s));
		sh = s;
		std::vector<double> a = expose<double>(dep.get()), b = expose<double>(dep2.get());
		RV_CHECK(a.size() == val.size() && b.size() == val.size(), "C16:dependant-size", h << " dependants hold " << a.size() << "," << b.size() << " elements");
		for (size_t i = 0; i < val.size() && i < a.size() && i < b.size(); i++)
		{
			RV_CHECK(close(a[i], ::cos(val[i])), "C16:dependant", h << " a dependant was not updated");
			RV_CHECK(close(b[i], 1.5 * val[i]), "C16:dependant-product", h << " a dependant was not updated");
		}
		RV_CHECK(q.eval()->expose() == (std::vector<double>{4, 5}) && w.eval()->expose()[0] == 1.5, "C16:other", h << " another leaf changed");
	};
	see();
	for (size_t s = 0, len = rnd(1, 6); s < len && C().failed.empty(); s++)
	{
		int o = rnd(0, 5);
		wat.told = 0;
		std::vector<double> prev = val;
		dims_t full = decl;
		if (sh.empty() && false == decl.empty() && coin(3)) for (size_t& x : full) if (0 == x) x = rnd(1, 3);
		if (sh.empty() && false == full.empty() && 0 < nelems(full) && coin(3))
		{
			// the first value may be a tensor of an allowed shape
			std::vector<double> nv = rvecd(nelems(full), -3, 3);
			h += "tensor" + str(full) + ";"; begin("placeholder history", h);
			tensor<double> t{tensorshape(full)};
			vec_init in(nv); in(t);
			p = t;
			val = nv; fed = true; sh = full;
		}
		else if (o == 0 && sh.empty() == false)
		{
			// a tensor is moved in: its contents become the value
			std::vector<double> nv = rvecd(val.size(), -3, 3);
			h += "tensor;"; begin("placeholder history", h);
			tensor<double> t{tensorshape(sh)};
			vec_init in(nv); in(t);
			p = t;
			RV_CHECK(false == t.is_alloc(), "C16:tensor-kept", "the tensor fed still owns its storage");
			val = nv; fed = true;
		}
		else
		{
			size_t k = 1;
			for (size_t x : decl) k *= std::max<size_t>(x, 1);
			size_t m = sh.empty() ? (coin(4) ? rnd(1, 20) : k * (holds(decl, 2 * k) ? rnd(1, 3) : 1)) : (coin(5) ? rnd(1, 20) : val.size());
			bool ok = sh.empty() ? holds(decl, m) : m == val.size();
			std::vector<double> nv = rvecd(m, -3, 3);
			if (ok)
			{
				h += "feed" + std::to_string(m) + ";"; begin("placeholder history", h);
				p = nv;
				val = nv; fed = true;
			}
			else if (coin(6))
			{
				h += "bad" + std::to_string(m) + ";"; begin("placeholder refusal", h);
				int r = refused([&]() { p = nv; const tensor<double>* t = p.eval(); return nullptr != t && (false == fed || t->expose() != val); });
				RV_CHECK(r == 0 || r == 3, "C16:bad-length", h << " data of " << m << " elements was accepted" << (r == 2 ? " and broke the process" : ""));
			}
		}
		if (wat.told > 0) RV_CHECK(wat.ready && wat.seen == val, "C16:told-early", h << " an observer told of the change read " << (wat.ready ? str(wat.seen) : "no value") << " instead of " << str(val));
		if (fed && prev != val) RV_CHECK(wat.told > 0, "C16:not-told", h << " an observer was not told of the change");
		see();
	}
	// copies keep their own data
	if (fed && coin(3) && C().failed.empty())
	{
		h += "copy;"; begin("placeholder history", h);
		std::unique_ptr<placeholder<double> > c(p.clone());
		RV_CHECK(c->eval() && c->eval()->expose() == val, "C16:copy", "a copy holds other data");
		std::vector<double> old = val;
		std::vector<double> nv = rvecd(val.size(), -3, 3);
		p = nv; val = nv;
		RV_CHECK(c->eval() && c->eval()->expose() == old, "C16:copy-changed", "a copy changed with its original");
		see();
	}
	if (dep.get()) delete dep.get();
	if (dep2.get()) delete dep2.get();
}
static void c16 (void) { while (more() && C().failed.empty()) c16_history(); }

int main (int argc, char** argv)
{
	return main_(argc, argv, {{"C13", c13}, {"C14", c14}, {"C15", c15}, {"C16", c16}});
}
