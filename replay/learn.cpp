// runtime contracts of optimisers (C17), serialisation (C18) and initialisers (C19)
// against independent evaluators: forward-mode derivatives, byte-exact comparison, range and frame checks
#include "rv.hpp"
#include "graph/leaf/variable.hpp"
#include "graph/leaf/placeholder.hpp"
#include "graph/leaf/constant.hpp"
#include "graph/varptr.hpp"
#include "graph/connector/immutable/generator.hpp"
#include "graph/operations/operations.hpp"
#include "memory/tensor_io.hpp"
#include "utils/gd_utils.hpp"
#include <memory>
#include <sys/wait.h>
#include <sys/stat.h>
using namespace rv;
using namespace nnet;
typedef varptr<double> vp;
typedef std::vector<double> vals_t;

struct vec_init : public initializer<double>
{
	vals_t v;
	vec_init (vals_t d) : v(d) {}
protected:
	virtual itensor_handler<double>* clone_impl (void) const { return new vec_init(*this); }
	virtual itensor_handler<double>* move_impl (void) { return new vec_init(*this); }
	virtual void calc_data (double* dest, tensorshape s) { for (size_t i = 0, n = s.n_elems(); i < n; i++) dest[i] = v[i % v.size()]; }
};

//==================================================================== C17
enum { VAR, PLACE, CONST, ADD, SUB, MUL, SIN, EXP, NEG, SQ, SCALE, SHIFT, DIV, SIGM };
struct Ex { int op; size_t a, b; double s; };
// value and derivative by variable k, elementwise
static void dual (const std::vector<Ex>& X, const std::vector<vals_t>& leaf, size_t n, size_t k, std::vector<vals_t>& v, std::vector<vals_t>& d)
{
	v.clear(); d.clear();
	for (size_t i = 0; i < X.size(); i++)
	{
		const Ex& e = X[i];
		vals_t x(n), y(n);
		for (size_t j = 0; j < n; j++)
		{
			double A = e.op > CONST ? v[e.a][j] : 0, B = e.op > CONST ? v[e.b][j] : 0, P = e.op > CONST ? d[e.a][j] : 0, Q = e.op > CONST ? d[e.b][j] : 0;
			switch (e.op)
			{
				case VAR: case PLACE: case CONST: x[j] = leaf[i][j]; y[j] = e.op == VAR && i == k; break;
				case ADD: x[j] = A + B; y[j] = P + Q; break;
				case SUB: x[j] = A - B; y[j] = P - Q; break;
				case MUL: x[j] = A * B; y[j] = P * B + A * Q; break;
				case DIV: x[j] = A / (B * B + 1); y[j] = (P * (B * B + 1) - A * 2 * B * Q) / ((B * B + 1) * (B * B + 1)); break;
				case SIN: x[j] = ::sin(A); y[j] = ::cos(A) * P; break;
				case EXP: x[j] = ::exp(::sin(A)); y[j] = x[j] * ::cos(A) * P; break;
				case NEG: x[j] = -A; y[j] = -P; break;
				case SQ: x[j] = A * A; y[j] = 2 * A * P; break;
				case SCALE: x[j] = A * e.s; y[j] = P * e.s; break;
				case SHIFT: x[j] = A + e.s; y[j] = P; break;
				case SIGM: x[j] = 1 / (1 + ::exp(-A)); y[j] = x[j] * (1 - x[j]) * P; break;
			}
		}
		v.push_back(x); d.push_back(y);
	}
}
static const char* ON[] = {"var", "place", "const", "add", "sub", "mul", "sin", "expsin", "neg", "sq", "scale", "shift", "div", "sigm"};

static void optimise_history (void)
{
	dims_t dims = rshape(1, 2, 1, 4, 12);
	size_t n = nelems(dims);
	std::string h = "shape" + str(dims) + ";";
	std::vector<Ex> X; std::vector<vp> N; std::vector<vals_t> leaf;
	std::vector<variable<double>*> V; std::vector<size_t> vid;
	std::vector<placeholder<double>*> P; std::vector<size_t> pid;
	auto add_leaf = [&](int op)
	{
		vals_t v = rvecd(n, -2, 2);
		size_t id = X.size();
		X.push_back({op, id, id, 0}); leaf.push_back(v);
		if (op == VAR) { vec_init in(v); auto p = new variable<double>(tensorshape(dims), in, "v" + std::to_string(id)); p->initialize(); V.push_back(p); vid.push_back(id); N.push_back(vp(p)); }
		else if (op == PLACE) { auto p = new placeholder<double>(tensorshape(dims), "p" + std::to_string(id)); *p = v; P.push_back(p); pid.push_back(id); N.push_back(vp(p)); }
		else N.push_back(constant<double>::get(v, tensorshape(dims)));
		h += std::string(ON[op]) + "#" + std::to_string(id) + ";";
	};
	for (size_t i = 0, k = rnd(1, 3); i < k; i++) add_leaf(VAR);
	for (size_t i = 0, k = rnd(1, 2); i < k; i++) add_leaf(PLACE);
	if (coin(3)) add_leaf(CONST);
	// one variable outside the objective
	vals_t outv = rvecd(n, -2, 2); vec_init oin(outv);
	variable<double>* outside = new variable<double>(tensorshape(dims), oin, "outside"); outside->initialize();
	size_t nl = X.size();
	auto op = [&](int o, size_t a, size_t b, double s)
	{
		h += std::string(ON[o]) + "(#" + std::to_string(a) + ",#" + std::to_string(b) + ");"; begin("optimiser history", h);
		vp r;
		switch (o)
		{
			case ADD: r = N[a] + N[b]; break;
			case SUB: r = N[a] - N[b]; break;
			case MUL: r = N[a] * N[b]; break;
			case DIV: r = N[a] / (N[b] * N[b] + 1.0); break;
			case SIN: r = nnet::sin<double>(N[a]); break;
			case EXP: r = nnet::exp<double>(nnet::sin<double>(N[a])); break;
			case NEG: r = -N[a]; break;
			case SQ: r = nnet::pow<double>(N[a], 2.0); break;
			case SCALE: r = N[a] * s; break;
			case SHIFT: r = N[a] + s; break;
			case SIGM: r = 1.0 / (1.0 + nnet::exp<double>(-N[a])); break;
		}
		N.push_back(r); X.push_back({o, a, b, s}); leaf.push_back({});
	};
	// every variable meets a placeholder, so that the objective is one graph
	std::vector<size_t> tops;
	for (size_t i : vid) { op(coin(3) ? ADD : coin() ? SUB : MUL, i, pid[rnd(0, pid.size() - 1)], 0); tops.push_back(X.size() - 1); }
	for (size_t i = 0, k = rnd(0, 4); i < k; i++)
	{
		size_t a = rnd(0, X.size() - 1), b = rnd(0, X.size() - 1);
		static const int OPS[] = {ADD, SUB, MUL, DIV, SIN, EXP, NEG, SQ, SCALE, SHIFT, SIGM};
		int o = OPS[rnd(0, 10)];
		if (X[a].op == CONST) continue;
		if ((o == SUB || o == DIV) && a == b) continue;
		if (X[b].op == CONST) b = a == vid[0] ? pid[0] : vid[0];
		if ((o == SUB || o == DIV) && a == b) continue;
		op(o, a, b, rndd(0.25, 2));
		tops.push_back(X.size() - 1);
	}
	size_t acc = tops[0];
	for (size_t i = 1; i < tops.size(); i++) { if (acc == tops[i]) continue; op(coin() ? ADD : SUB, acc, tops[i], 0); acc = X.size() - 1; }
	op(SUB, acc, pid[0], 0);
	op(SQ, X.size() - 1, X.size() - 1, 0);
	size_t root = X.size() - 1;
	iconnector<double>* err = dynamic_cast<iconnector<double>*>(N[root].get());
	if (nullptr == err) return;

	bool rms = coin();
	double lr = rndd(0.01, 0.6), disc = rndd(0.1, 0.95);
	bool process = coin(3); double pk = rndd(0.2, 1.5);
	std::unique_ptr<gd_updater> upd;
	rmspropupdater* rp = nullptr; 
	if (rms) { rp = new rmspropupdater(coin() ? lr : 0.5, disc); upd.reset(rp); if (coin()) { disc = rndd(0.1, 0.95); rp->set_discount_factor(disc); } upd->set_learning_rate(lr); }
	else { bool late = coin(); upd.reset(new vgb_updater(late ? 0.5 : lr)); if (late) upd->set_learning_rate(lr); }
	h += (rms ? "rms(lr=" : "vgb(lr=") + std::to_string(lr) + ",d=" + std::to_string(disc) + (process ? ",k=" + std::to_string(pk) : "") + ");";
	// ignoring a sub-expression leaves out exactly its variables
	std::set<size_t> ign;
	if (V.size() > 1 && coin(3))
	{
		size_t w = rnd(0, V.size() - 1);
		upd->ignore_subtree(coin() ? (inode<double>*) V[w] : N[nl + w].get());
		ign.insert(w); h += "ignore#" + std::to_string(vid[w]) + ";";
		if (coin(3)) { upd->clear_ignore(); ign.clear(); h += "clear;"; }
	}
	if (coin(3)) { h += "clone;"; upd.reset(upd->clone()); }
	begin("optimiser history", h);
	std::vector<vals_t> val(V.size()), mom(V.size(), vals_t(n, 1.0));
	for (size_t i = 0; i < V.size(); i++) val[i] = leaf[vid[i]];
	auto state = [&](const char* when, double tol)
	{
		for (size_t i = 0; i < V.size() && C().failed.empty(); i++)
		{
			vals_t got = V[i]->eval()->expose();
			for (size_t j = 0; j < n; j++)
				RV_CHECK(close(got[j], val[i][j], tol), std::string("C17:") + (rms ? "rms" : "vgb") + (ign.count(i) ? "-ignored" : ""),
					when << ": variable #" << vid[i] << " is " << str(got) << ", the rule gives " << str(val[i]));
		}
		RV_CHECK(outside->eval()->expose() == outv, "C17:outside", when << ": a variable the objective does not depend on changed");
		for (size_t i = 0; i < P.size(); i++) RV_CHECK(P[i]->eval()->expose() == leaf[pid[i]], "C17:placeholder", when << ": a placeholder changed");
	};
	updates_t U = process
		? upd->calculate(N[root].get(), [pk](vp g, variable<double>*) -> vp { return g * pk; })
		: upd->calculate(N[root].get());
	// x - x folds to a constant, so the objective may have lost variables; those have derivative zero
	auto leaves = N[root]->get_leaves();
	size_t dep = 0;
	for (size_t i = 0; i < V.size(); i++) dep += leaves.count(V[i]) && 0 == ign.count(i);
	RV_CHECK(U.size() == dep, "C17:count", U.size() << " updates for " << V.size() << " variables, " << ign.size() << " ignored");
	state("after calculate", 0);
	std::vector<vals_t> v, d;
	for (size_t step = 0, ns = rnd(1, 5); step < ns && C().failed.empty(); step++)
	{
		if (coin()) for (size_t i = 0; i < P.size(); i++) { vals_t x = rvecd(n, -2, 2); h += "feed;"; begin("optimiser history", h); *P[i] = x; leaf[pid[i]] = x; }
		bool freeze = coin(3) == false;
		h += freeze ? "step;" : "quiet step;"; begin("optimiser history", h);
		// the rule, at the values before the step
		std::vector<vals_t> nv = val;
		bool ok = true;
		for (size_t i = 0; i < V.size(); i++)
		{
			leaf[vid[i]] = val[i];
		}
		for (size_t i = 0; i < V.size(); i++)
		{
			dual(X, leaf, n, vid[i], v, d);
			for (size_t j = 0; j < n; j++)
			{
				double g = d[root][j] * (process ? pk : 1);
				if (false == std::isfinite(g) || std::fabs(g) > 1e6 || std::fabs(v[root][j]) > 1e8) ok = false;
				if (ign.count(i)) continue;
				if (rms) { mom[i][j] = disc * mom[i][j] + (1 - disc) * g * g; nv[i][j] = val[i][j] - lr * g / (std::sqrt(mom[i][j]) + std::numeric_limits<double>::epsilon()); }
				else nv[i][j] = val[i][j] - lr * g;
				if (false == std::isfinite(nv[i][j]) || std::fabs(nv[i][j]) > 50) ok = false;
			}
		}
		if (false == ok) break;
		if (freeze)
		{
			err->freeze_status(true);
			for (auto& u : U) u(true);
			err->freeze_status(false);
		}
		else
		{
			N[root]->eval();
			for (auto& u : U) u(false);
			for (auto p : V) p->notify(UPDATE);
		}
		val = nv;
		state(h.c_str(), 1e-6);
		for (size_t i = 0; i < V.size(); i++) leaf[vid[i]] = val[i];
		dual(X, leaf, n, vid[0], v, d);
		if (C().failed.empty())
		{
			vals_t got = expose<double>(N[root].get());
			for (size_t j = 0; j < n; j++) RV_CHECK(got.size() == n && close(got[j], v[root][j], 1e-5), "C17:objective", "after " << h << " the objective reads " << str(got) << ", its value is " << str(v[root]));
		}
		// keep rounding from piling up
		for (size_t i = 0; i < V.size(); i++) val[i] = V[i]->eval()->expose();
	}
	if (C().failed.empty())
	{
		U.clear();
		for (auto p : V) delete p;
		for (auto p : P) delete p;
		delete outside;
	}
}
static void c17 (void) { while (more() && C().failed.empty()) optimise_history(); }

//==================================================================== C18
static bool same_bits (const vals_t& a, const vals_t& b) { return a.size() == b.size() && (a.empty() || 0 == memcmp(a.data(), b.data(), a.size() * sizeof(double))); }
static double odd (void)
{
	switch (rnd(0, 9))
	{
		case 0: return std::numeric_limits<double>::quiet_NaN();
		case 1: return std::numeric_limits<double>::infinity();
		case 2: return -0.0;
		case 3: return std::numeric_limits<double>::denorm_min() * rnd(1, 1000);
		case 4: { uint64_t x = C().rng(); double r; memcpy(&r, &x, 8); return r; }
		case 5: return 0;
		default: return rval();
	}
}
static void fill (tensor<double>& t, vals_t& v)
{
	v.resize(t.n_elems());
	for (size_t i = 0; i < v.size(); i++) t.raw_data_[i] = v[i] = odd();
}
static dims_t allows (const dims_t& d, int mode)
{
	if (mode == 0) return d;
	if (mode == 3) { dims_t a = d; a.insert(coin() ? a.begin() : a.end(), 1); return a; }
	if (mode == 1) { dims_t a = d; for (size_t& x : a) if (coin()) x = 0; return a; }
	return dims_t{};
}
static void tensor_roundtrip (void)
{
	dims_t d = rshape(1, 4, 1, 5, 200);
	int am = rnd(0, 3);
	dims_t al = allows(d, am);
	std::string h = "tensor" + str(al) + " as " + str(d);
	tensor<double> src{tensorshape(al)};
	begin("tensor message", h);
	if (am == 3) src.deallocate();
	if (false == src.is_alloc()) { if (false == src.allocate(tensorshape(d))) return; }
	d = src.get_shape().as_list();
	vals_t v; fill(src, v);
	tenncor::tensor_proto msg;
	src.serialize(&msg);
	RV_CHECK(same_bits(src.expose(), v), "C18:source-changed", "writing changed the tensor");
	if (coin()) { std::string bytes; msg.SerializeToString(&bytes); msg.Clear(); RV_CHECK(msg.ParseFromString(bytes), "C18:message", "message does not parse"); }
	// receivers in any prior state
	dims_t rd = rshape(coin(4) ? 0 : 1, 4, 1, 5, 200);
	int st = rnd(0, 3);
	h += " into " + str(rd) + " state " + std::to_string(st);
	begin("tensor message", h);
	tensor<double> dst{tensorshape(rd)};
	vals_t old;
	if (dst.is_alloc()) fill(dst, old);
	if (st == 1) dst.deallocate();
	if (st == 2) { tensor<double> tmp{tensorshape(rshape(1, 3, 1, 4, 60))}; fill(tmp, old); dst = tmp; }
	tensor<double> copy_before(dst);
	vals_t cold = copy_before.is_alloc() ? copy_before.expose() : vals_t{};
	bool ok = dst.from_proto(msg);
	RV_CHECK(ok, "C18:refused", "a complete message was refused");
	RV_CHECK(dst.is_alloc() && dst.get_shape().as_list() == d, "C18:shape", "shape " << str(dst.get_shape().as_list()) << " instead of " << str(d));
	RV_CHECK(dst.is_alloc() && same_bits(dst.expose(), v), "C18:elements", "elements differ from those written");
	RV_CHECK(same_bits(src.expose(), v) && dst.raw_data_ != src.raw_data_, "C18:shared", "reading changed or shares the source");
	RV_CHECK(dst.allowed_shape_.as_list() == al, "C18:allowed", "allowed shape " << str(dst.allowed_shape_.as_list()) << " instead of " << str(al));
	if (copy_before.is_alloc()) RV_CHECK(same_bits(copy_before.expose(), cold), "C18:other", "reading changed another tensor");
	// a second message replaces the first
	tensor<double> src2{tensorshape(rshape(1, 3, 1, 5, 100))};
	vals_t v2; fill(src2, v2);
	tenncor::tensor_proto m2; src2.serialize(&m2);
	if (coin()) { m2.Clear(); src2.serialize(&m2); src2.serialize(&m2); }
	RV_CHECK(dst.from_proto(m2) && dst.get_shape().as_list() == src2.get_shape().as_list() && same_bits(dst.expose(), v2), "C18:again", "a second message was not read back");
	// an unallocated tensor writes nothing; incomplete messages are refused
	tensor<double> none{tensorshape(dims_t{})};
	tenncor::tensor_proto m3; none.serialize(&m3);
	RV_CHECK(m3.data().empty() && m3.alloc_shape_size() == 0, "C18:empty", "an unallocated tensor wrote data");
}
static std::string tmpfile_ (void) { return C().out + "/nodes.pb"; }
struct Mute { int a, b; Mute () { fflush(stdout); a = dup(1); b = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); close(n); } ~Mute () { std::cout.flush(); std::cerr.flush(); fflush(stdout); dup2(a, 1); dup2(b, 2); close(a); close(b); } };
static void graph_roundtrip (void)
{
	size_t k = rnd(1, 4);
	std::string h = std::to_string(k) + " variables";
	std::vector<dims_t> ds; std::vector<vals_t> vs;
	dims_t common = rshape(1, 2, 1, 4, 12);
	for (size_t i = 0; i < k; i++) { ds.push_back(coin(3) ? rshape(1, 3, 1, 4, 24) : common); vs.push_back(rvecd(nelems(ds[i]), -2, 2)); h += str(ds[i]); }
	begin("model file", h);
	std::string f = tmpfile_();
	unlink(f.c_str());
	struct Model { std::vector<variable<double>*> V; std::vector<vp> out; };
	auto build = [&](bool init)
	{
		Model m;
		for (size_t i = 0; i < k; i++)
		{
			vec_init in(init ? vs[i] : vals_t(1, 0.125));
			auto v = new variable<double>(tensorshape(ds[i]), in, "v");
			if (init || coin()) v->initialize();
			m.V.push_back(v);
			m.out.push_back(nnet::sin<double>(v) * 2.0);
			if (i && ds[i] == ds[i - 1]) m.out.push_back(vp(m.V[i]) * vp(m.V[i - 1]));
		}
		return m;
	};
	Model A = build(true);
	std::vector<vals_t> before;
	for (vp& o : A.out) before.push_back(expose<double>(o.get()));
	auto nodes = [](Model& m) { return std::vector<inode<double>*>(m.V.begin(), m.V.end()); };
	std::string label = coin() ? "model" : "m:x";
	// another model lives in the same file under another label
	vals_t ov = rvecd(3, -1, 1); vec_init oi(ov);
	variable<double> other(tensorshape(dims_t{3}), oi, "o"); other.initialize();
	bool first = coin();
	{
		Mute mu;
		std::vector<inode<double>*> a = nodes(A), o = {&other};
		if (first) write_inorder<double>(o, "other", f);
		RV_CHECK(write_inorder<double>(a, label, f), "C18:write", "saving failed");
		if (false == first) write_inorder<double>(o, "other", f);
	}
	for (size_t i = 0; i < A.out.size(); i++) RV_CHECK(expose<double>(A.out[i].get()) == before[i], "C18:save-changed", "saving changed a value");
	Model B = build(false);
	size_t extra = rnd(0, 2);
	std::vector<std::unique_ptr<variable<double> > > more_vars;
	std::vector<inode<double>*> b = nodes(B);
	for (size_t i = 0; i < extra; i++) { vec_init in({9.0}); more_vars.emplace_back(new variable<double>(tensorshape(dims_t{2}), in, "extra")); more_vars.back()->initialize(); b.push_back(more_vars.back().get()); }
	bool res;
	{ Mute mu; res = read_inorder<double>(b, label, f); }
	RV_CHECK(res, "C18:read", "loading failed");
	RV_CHECK(b.size() == extra, "C18:unfound", b.size() << " nodes reported missing, " << extra << " are");
	for (size_t i = 0; i < b.size() && i < extra; i++) RV_CHECK(b[i] == more_vars[i].get() && more_vars[i]->eval()->expose() == vals_t(2, 9.0), "C18:missing-changed", "a node without data was changed or not reported");
	for (size_t i = 0; i < k; i++)
	{
		const tensor<double>* t = B.V[i]->eval();
		RV_CHECK(nullptr != t && same_bits(t->expose(), vs[i]) && t->get_shape().as_list() == ds[i], "C18:leaf", "variable " << i << " does not read back");
	}
	for (size_t i = 0; i < B.out.size() && C().failed.empty(); i++) { const tensor<double>* t = B.out[i]->eval(); RV_CHECK(t && t->expose() == before[i], "C18:node", "a node of the loaded graph differs from the saved one"); }
	{
		vec_init z({0.0});
		variable<double> o2(tensorshape(dims_t{3}), z, "o2"); o2.initialize();
		std::vector<inode<double>*> o = {&o2};
		{ Mute mu; read_inorder<double>(o, "other", f); }
		RV_CHECK(o.empty() && o2.eval()->expose() == ov, "C18:other-label", "the other model of the file was lost");
		// unknown label or file: nothing changes
		std::vector<inode<double>*> q = {&o2};
		bool r; { Mute mu; r = read_inorder<double>(q, "nolabel", f); }
		RV_CHECK(q.size() == 1 && o2.eval()->expose() == ov, "C18:nolabel", "loading an unknown label changed a variable");
	}
	// a node without a value is skipped; every other node of the list is stored under its own place
	{
		size_t at = rnd(0, k - 1);
		vec_init u({2.0});
		variable<double> none(tensorshape(dims_t{2}), u, "none");
		std::vector<inode<double>*> a = nodes(A), c;
		a.insert(a.begin() + at, &none);
		Model D = build(false);
		variable<double> still(tensorshape(dims_t{2}), u, "still"); still.initialize();
		c = nodes(D);
		c.insert(c.begin() + at, &still);
		begin("model file", h + " with an uninitialised variable at " + std::to_string(at));
		{ Mute mu; std::string gap = label + "gap"; write_inorder<double>(a, gap, f); read_inorder<double>(c, gap, f); }
		RV_CHECK(c.size() == 1 && c[0] == &still, "C18:gap-unfound", c.size() << " nodes reported missing, 1 was never saved");
		for (size_t i = 0; i < k; i++)
		{
			const tensor<double>* t = D.V[i]->eval();
			RV_CHECK(nullptr != t && same_bits(t->expose(), vs[i]), "C18:gap-leaf", "variable " << i << " does not read back next to an uninitialised one");
		}
		RV_CHECK(still.eval()->expose() == vals_t(2, 2.0), "C18:gap-changed", "a node that was not saved was changed");
		if (C().failed.empty()) for (auto v : D.V) delete v;
	}
	// saving again after a change overwrites
	vec_init z2({0.5});
	A.V[0]->set_initializer(z2); A.V[0]->initialize();
	{ Mute mu; std::vector<inode<double>*> a = nodes(A); write_inorder<double>(a, label, f); std::vector<inode<double>*> bb = nodes(B); read_inorder<double>(bb, label, f); }
	RV_CHECK(B.V[0]->eval()->expose() == vals_t(nelems(ds[0]), 0.5), "C18:resave", "a second save was not loaded");
	for (size_t i = 0; i < A.out.size() && C().failed.empty(); i++) RV_CHECK(expose<double>(A.out[i].get()) == expose<double>(B.out[i].get()), "C18:resave-node", "a node differs after the second load");
	unlink(f.c_str());
	if (C().failed.empty()) { for (auto v : A.V) delete v; for (auto v : B.V) delete v; }
}
static void incomplete (void)
{
	begin("incomplete message", "shapes without data, undefined allocated shape, mismatched shapes");
	tensor<double> good{tensorshape(dims_t{2, 2})}; vals_t v; fill(good, v);
	tensor<double> neighbour(good);
	tenncor::tensor_proto m; good.serialize(&m);
	tensor<double> t{tensorshape(dims_t{2, 2})}; vals_t w; fill(t, w);
	tenncor::tensor_proto bad = m;
	bad.set_alloc_shape(0, 0);
	RV_CHECK(false == t.from_proto(bad), "C18:undefined-accepted", "a message with an undefined allocated shape was accepted");
	bad = m; bad.set_alloc_shape(0, 3);
	RV_CHECK(false == t.from_proto(bad), "C18:mismatch-accepted", "a message whose shapes disagree was accepted");
	bad = m; bad.set_data(m.data() + "xxxxxxxx");
	RV_CHECK(t.is_alloc() && t.get_shape().as_list() == dims_t({2, 2}) && same_bits(t.expose(), w), "C18:refused-changed", "a refused message changed the receiver");
	RV_CHECK(same_bits(neighbour.expose(), v) && same_bits(good.expose(), v), "C18:incomplete-other", "another tensor changed");
	// a variable that refuses a message keeps its status
	vec_init in({1.5});
	variable<double> a(tensorshape(dims_t{2, 2}), in, "a");
	RV_CHECK(false == a.read_proto(bad) && false == a.good_status(), "C18:refused-init", "a refused message initialised a variable");
	// less data than the shape needs
	tenncor::tensor_proto cut = m; 
	std::string part = m.data().substr(0, rnd(0, m.data().size() - 1));
	cut.set_data(part);
	fflush(stdout);
	pid_t p = fork();
	if (p == 0) { signal(SIGABRT, SIG_DFL); tensor<double> r{tensorshape(dims_t{1})}; bool ok = false; try { ok = r.from_proto(cut); } catch (...) {} _exit(ok ? 1 : 0); }
	int st = 0; waitpid(p, &st, 0);
	RV_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, "C18:short", "a message with less data than its shape needs was accepted");
	// more data than the shape needs must not be written past the storage
	tenncor::tensor_proto lng = m; lng.set_data(m.data() + std::string(rnd(1, 64), 'x'));
	fflush(stdout);
	p = fork();
	if (p == 0) { signal(SIGABRT, SIG_DFL); int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); tensor<double> r{tensorshape(dims_t{1})}; try { r.from_proto(lng); } catch (...) {} _exit(0); }
	st = 0; waitpid(p, &st, 0);
	RV_CHECK((WIFEXITED(st) && WEXITSTATUS(st) == 0), "C18:overlong", "a message with more data than its shape needs was written past the storage");
}
static void c18 (void)
{
	incomplete();
	while (more() && C().failed.empty())
	{
		for (int i = 0; i < 40 && C().failed.empty(); i++) tensor_roundtrip();
		if (C().failed.empty()) graph_roundtrip();
	}
}

//==================================================================== C19
struct Probe : public const_init<double> {};
static const double GUARD = -12345.678;
template <typename F>
static void into_buffer (const std::string& what, const dims_t& d, F calc, std::function<bool(size_t, double)> good)
{
	size_t n = nelems(d);
	begin(what, what + str(d));
	// two fills of the sentinel tell an untouched element from an element that happens to equal it
	for (int pass = 0; pass < 2; pass++)
	{
		double s = pass ? GUARD : 54321.125;
		vals_t buf(n + 8, s);
		calc(buf.data() + 4, tensorshape(d));
		for (size_t i = 0; i < 4; i++) RV_CHECK(buf[i] == s && buf[n + 4 + i] == s, "C19:outside:" + what, "wrote outside the target");
		for (size_t i = 0; i < n; i++) RV_CHECK(good(i, buf[i + 4]), "C19:value:" + what, "element " << i << " of " << str(d) << " is " << buf[i + 4]);
	}
}
static void c19_case (void)
{
	dims_t d = rshape(1, 4, 1, 6, 400);
	size_t n = nelems(d);
	double c = rval();
	{
		const_init<double> in(c);
		std::unique_ptr<const_init<double> > cl(in.clone());
		const_init<double>& u = coin() ? in : *cl;
		into_buffer("constant", d, [&](double* p, tensorshape s) { u.calc_data(p, s); }, [&](size_t, double x) { return x == c; });
		tensor<double> t{tensorshape(d)};
		u(t);
		RV_CHECK(t.expose() == vals_t(n, c), "C19:constant-tensor", "constant initialiser left " << str(t.expose()));
	}
	double lo = rndd(-10, 10), hi = lo + (coin(6) ? 1e-9 : rndd(0.01, 20));
	{
		rand_uniform<double> in(lo, hi);
		std::unique_ptr<rand_uniform<double> > cl(in.clone());
		rand_uniform<double>& u = coin() ? in : *cl;
		nnutils::seed_generator(rnd(0, 1000000));
		into_buffer("uniform", d, [&](double* p, tensorshape s) { u.calc_data(p, s); }, [&](size_t, double x) { return x >= lo && x <= hi; });
		// the draws spread over the interval
		if (n > 60 && hi - lo > 1e-6)
		{
			tensor<double> t{tensorshape(d)}; u(t);
			vals_t v = t.expose();
			double mn = *std::min_element(v.begin(), v.end()), mx = *std::max_element(v.begin(), v.end()), m = 0;
			for (double x : v) m += x / n;
			RV_CHECK(mn < lo + (hi - lo) * 0.35 && mx > hi - (hi - lo) * 0.35 && std::fabs(m - (lo + hi) / 2) < (hi - lo) * 0.35, "C19:spread", "uniform draws between " << lo << " and " << hi << " lie in [" << mn << "," << mx << "] with mean " << m);
		}
		int il = (int) rnd(0, 20) - 10, ih = il + rnd(0, 8);
		rand_uniform<int> iu(il, ih);
		std::vector<int> ib(n + 2, -999);
		iu.calc_data(ib.data() + 1, tensorshape(d));
		RV_CHECK(ib[0] == -999 && ib[n + 1] == -999, "C19:outside:int", "wrote outside the target");
		for (size_t i = 0; i < n; i++) RV_CHECK(ib[i + 1] >= il && ib[i + 1] <= ih, "C19:int-uniform", "element " << ib[i + 1] << " outside [" << il << "," << ih << "]");
	}
	{
		double mean = rndd(-5, 5), sd = rndd(0.1, 3);
		rand_normal<double> in(mean, sd);
		std::unique_ptr<rand_normal<double> > cl(in.clone());
		rand_normal<double>& u = coin() ? in : *cl;
		nnutils::seed_generator(rnd(0, 1000000));
		into_buffer("normal", d, [&](double* p, tensorshape s) { u.calc_data(p, s); }, [&](size_t, double x) { return std::fabs(x - mean) < 12 * sd; });
		if (n > 100)
		{
			tensor<double> t{tensorshape(d)}; u(t);
			vals_t v = t.expose();
			double m = 0, q = 0;
			for (double x : v) m += x / n;
			for (double x : v) q += (x - m) * (x - m) / n;
			RV_CHECK(std::fabs(m - mean) < 7 * sd / std::sqrt((double) n) && q > sd * sd * 0.2 && q < sd * sd * 4, "C19:normal", "normal draws of mean " << mean << " deviation " << sd << " have mean " << m << " variance " << q);
		}
	}
	// a variable is filled by its initialiser completely
	{
		begin("variable initialiser", str(d));
		rand_uniform<double> in(lo, hi);
		variable<double> v(tensorshape(d), in, "v");
		vals_t x = v.initialize().expose();
		for (double y : x) RV_CHECK(x.size() == n && y >= lo && y <= hi, "C19:variable", "initialised variable holds " << y << " outside [" << lo << "," << hi << "]");
	}
	// assignment handler
	{
		begin("assign", str(d));
		tensor<double> t{tensorshape(d)}, s{tensorshape(d)};
		vals_t tv(n), sv(n);
		for (size_t i = 0; i < n; i++) { t.raw_data_[i] = tv[i] = rval(); s.raw_data_[i] = sv[i] = rval(); }
		assign_func<double> as;
		as(t, s, [](const double& a, const double& b) { return a * 3 - b; });
		for (size_t i = 0; i < n; i++) { tv[i] = tv[i] * 3 - sv[i]; RV_CHECK(t.raw_data_[i] == tv[i], "C19:assign", "element " << i << " is " << t.raw_data_[i] << " instead of " << tv[i]); }
		RV_CHECK(s.expose() == sv, "C19:assign-source", "the source changed");
		as(t, sv);
		RV_CHECK(t.expose() == sv, "C19:assign-data", "raw data was not copied");
	}
}
static void generator_history (void)
{
	// a generator holds one draw for its dependency's shape and draws again only when that shape changes
	bool partial = coin();
	dims_t d = rshape(1, 2, 1, 4, 16);
	std::string h = "generator over " + str(d) + ";";
	begin("generator", h);
	placeholder<double> p{tensorshape(partial ? dims_t{} : d), "p"};
	struct counting : public initializer<double>
	{
		static long& calls (void) { static long c = 0; return c; }
	protected:
		virtual itensor_handler<double>* clone_impl (void) const { return new counting(*this); }
		virtual itensor_handler<double>* move_impl (void) { return new counting(*this); }
		virtual void calc_data (double* dest, tensorshape s) { calls()++; for (size_t i = 0, n = s.n_elems(); i < n; i++) dest[i] = calls() * 1000.0 + i; }
	} init;
	counting::calls() = 0;
	auto feed = [&](const dims_t& s) { tensor<double> t{tensorshape(s)}; for (size_t i = 0; i < t.n_elems(); i++) t.raw_data_[i] = i; p = t; };
	bool fed = coin();
	if (fed) feed(d);
	generator<double>* g = generator<double>::get(&p, init, "g");
	bool watched = coin();
	vp use;
	if (watched) use = vp(g) * 2.0;
	long want = fed ? 1 : 0;
	dims_t cur = d;
	for (size_t s = 0, len = rnd(1, 6); s < len && C().failed.empty(); s++)
	{
		if (fed)
		{
			const tensor<double>* t = g->eval();
			RV_CHECK(t != nullptr && counting::calls() == want, "C19:generator-fill", "after " << h << " the generator was filled " << counting::calls() << " times, expected " << want);
			if (t)
			{
				vals_t v = t->expose();
				RV_CHECK(t->get_shape().as_list() == cur, "C19:generator-shape", "after " << h << " the generator has shape " << str(t->get_shape().as_list()));
				for (size_t i = 0; i < v.size(); i++) RV_CHECK(v[i] == want * 1000.0 + i, "C19:generator-value", "after " << h << " element " << i << " is " << v[i]);
				vals_t u = watched ? expose<double>(use.get()) : vals_t();
				for (size_t i = 0; i < u.size(); i++) RV_CHECK(u.size() == v.size() && u[i] == 2 * v[i], "C19:generator-use", "after " << h << " a dependant of the generator is stale");
			}
		}
		dims_t nd = cur;
		if (partial && fed == false) nd = d;
		else if (partial && coin())
		{
			// another shape: the same number of elements laid out differently, or another number
			if (coin()) nd = dims_t(cur.rbegin(), cur.rend());
			else nd[rnd(0, nd.size() - 1)] += rnd(1, 2);
			if (watched) break;
			if (nd != cur) want++;
		}
		h += "feed" + str(nd) + ";"; begin("generator", h);
		feed(nd);
		if (false == fed) { fed = true; want = 1; }
		cur = nd;
	}
	if (C().failed.empty()) delete g;
}
static void c19 (void)
{
	while (more() && C().failed.empty())
	{
		for (int i = 0; i < 20 && C().failed.empty(); i++) c19_case();
		if (C().failed.empty()) generator_history();
	}
}
int main (int argc, char** argv) { return main_(argc, argv, {{"C17", c17}, {"C18", c18}, {"C19", c19}}); }
