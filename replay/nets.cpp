// runtime contracts of the models: Q-learning agent (C20), layers and perceptrons (C21), Boltzmann machines and belief nets (C22)
#include "rv.hpp"
#include "models/dq_net.hpp"
#include "models/gd_net.hpp"
#include "models/rbm.hpp"
#include "models/db_net.hpp"
#include "layers/fc_layer.hpp"
#include "compounds/mlp.hpp"
#include <memory>
using namespace rv;
using namespace nnet;
using namespace rocnnet;
typedef varptr<double> vp;
typedef std::vector<double> vals_t;

struct Mute { int a, b; Mute () { fflush(stdout); a = dup(1); b = dup(2); int n = open("/dev/null", O_WRONLY); dup2(n, 1); dup2(n, 2); close(n); } ~Mute () { std::cout.flush(); std::cerr.flush(); fflush(stdout); dup2(a, 1); dup2(b, 2); close(a); close(b); } };

static void set_values (const std::vector<variable<double>*>& vs, double lo, double hi)
{
	for (auto v : vs)
	{
		if (nullptr == v->eval()) v->initialize();
		size_t n = v->eval()->n_elems();
		vals_t x = rvecd(n, lo, hi);
		v->assign((vp(constant<double>::get(x, v->get_shape())).get()))(true);
	}
}
static vals_t value (variable<double>* v) { const tensor<double>* t = v->eval(); return t ? t->expose() : vals_t{}; }
static std::vector<vals_t> values (const std::vector<variable<double>*>& vs) { std::vector<vals_t> r; for (auto v : vs) r.push_back(value(v)); return r; }

// y[o,b] = sum_k x[k,b] w[o,k] (+ bias[o]); the first coordinate runs fastest
static vals_t affine (const vals_t& x, size_t nin, size_t nb, const vals_t& w, size_t nout, const vals_t& b, bool transposed = false)
{
	vals_t y(nout * nb);
	for (size_t c = 0; c < nb; c++) for (size_t o = 0; o < nout; o++)
	{
		double s = b[o];
		for (size_t k = 0; k < nin; k++) s += x[k + c * nin] * (transposed ? w[k + o * nin] : w[o + k * nout]);
		y[o + c * nout] = s;
	}
	return y;
}
static double sig (double x) { return 1 / (1 + ::exp(-x)); }
static vals_t map_ (vals_t v, double (*f) (double)) { for (double& x : v) x = f(x); return v; }

static dims_t trim_ (dims_t d) { while (d.size() > 1 && d.back() == 1) d.pop_back(); return d; }
static void agree (const std::string& key, const std::string& what, inode<double>* node, const dims_t& d, const vals_t& want)
{
	const tensor<double>* t = node ? node->eval() : nullptr;
	RV_CHECK(nullptr != t, key, what << ": no value");
	if (nullptr == t) return;
	RV_CHECK(trim_(t->get_shape().as_list()) == trim_(d), key + "-shape", what << ": shape " << str(t->get_shape().as_list()) << ", expected " << str(d));
	vals_t got = t->expose();
	RV_CHECK(got.size() == want.size(), key + "-shape", what << ": " << got.size() << " elements");
	for (size_t i = 0; i < got.size() && i < want.size(); i++) if (false == close(got[i], want[i], 1e-8)) { RV_CHECK(false, key, what << ": element " << i << " is " << got[i] << ", expected " << want[i]); return; }
}
static bool disjoint_ (const std::vector<variable<double>*>& a, const std::vector<variable<double>*>& b)
{
	std::set<const void*> s;
	for (auto v : a) { s.insert(v); s.insert(v->data_); if (v->data_ && v->data_->is_alloc()) s.insert(v->data_->raw_data_); }
	for (auto v : b) if (s.count(v) || s.count(v->data_) || (v->data_ && v->data_->is_alloc() && s.count(v->data_->raw_data_))) return false;
	return true;
}

//==================================================================== C21
static void fc_case (void)
{
	size_t k = rnd(1, 3), nout = rdim(1, 5, 12), nb = rdim(1, 4, 12);
	std::vector<size_t> nin;
	for (size_t i = 0; i < k; i++) nin.push_back(rdim(1, 5, 12));
	std::string h = "fc " + str(nin) + "->" + std::to_string(nout) + " batch " + std::to_string(nb);
	begin("layer", h);
	std::unique_ptr<fc_layer> L(new fc_layer(nin, nout, "L"));
	auto V = L->get_variables();
	RV_CHECK(V.size() == 2 * k, "C21:layer-vars", V.size() << " variables for " << k << " inputs");
	for (size_t i = 0; i < k && V.size() == 2 * k; i++)
	{
		RV_CHECK(V[2 * i]->get_shape().as_list() == dims_t({nout, nin[i]}) && V[2 * i + 1]->get_shape().as_list() == dims_t({nout}), "C21:layer-shapes", "weight or bias of input " << i << " has another shape");
		// the initialisers: weights within 1/sqrt(n_input), bias zero
		vals_t w = V[2 * i]->initialize().expose(), b = V[2 * i + 1]->initialize().expose();
		for (double x : w) RV_CHECK(std::fabs(x) <= 1 / std::sqrt((double) nin[i]), "C21:layer-init", "initial weight " << x);
		RV_CHECK(b == vals_t(nout, 0), "C21:layer-init", "initial bias is not zero");
	}
	if (C().failed.size()) return;
	set_values(V, -2, 2);
	std::vector<std::unique_ptr<placeholder<double> > > in;
	std::vector<inode<double>*> args;
	std::vector<vals_t> x;
	for (size_t i = 0; i < k; i++)
	{
		in.emplace_back(new placeholder<double>(tensorshape(dims_t{nin[i], coin() ? 0 : nb}), "in"));
		x.push_back(rvecd(nin[i] * nb, -2, 2));
		*in.back() = x.back();
		args.push_back(in.back().get());
	}
	auto formula = [&](const std::vector<vals_t>& W)
	{
		vals_t y(nout * nb, 0);
		for (size_t i = 0; i < k; i++) { vals_t t = affine(x[i], nin[i], nb, W[2 * i], nout, W[2 * i + 1]); for (size_t j = 0; j < y.size(); j++) y[j] += t[j]; }
		return y;
	};
	vp out = (*L)(args);
	agree("C21:layer", h, out.get(), {nout, nb}, formula(values(V)));
	// new data and parameters are seen
	size_t w = rnd(0, k - 1);
	x[w] = rvecd(nin[w] * nb, -2, 2); *in[w] = x[w];
	set_values(V, -1, 1);
	agree("C21:layer-update", h, out.get(), {nout, nb}, formula(values(V)));
	// copies
	int mode = rnd(0, 3);
	static const char* MN[] = {"clone", "copy assignment", "move", "move assignment"};
	std::vector<vals_t> W = values(V);
	h += std::string(" ") + MN[mode]; begin("layer", h);
	std::unique_ptr<fc_layer> M;
	if (mode == 0) M.reset(L->clone("M"));
	else if (mode == 1) { M.reset(new fc_layer({3}, 2, "M")); *M = *L; }
	else if (mode == 2) M.reset(L->move());
	else { M.reset(new fc_layer({3}, 2, "M")); *M = std::move(*L); }
	auto U = M->get_variables();
	RV_CHECK(values(U) == W, "C21:layer-copy-values", h << " has other parameters");
	if (C().failed.size()) return;
	agree("C21:layer-copy", h, (*M)(args).get(), {nout, nb}, formula(W));
	if (mode < 2)
	{
		RV_CHECK(disjoint_(U, L->get_variables()), "C21:layer-copy-shared", h << " shares a parameter");
		set_values(U, 3, 4);
		RV_CHECK(values(L->get_variables()) == W, "C21:layer-copy-dependent", "changing the copy changed the original");
		agree("C21:layer-original", h, out.get(), {nout, nb}, formula(W));
	}
	else
	{
		RV_CHECK(disjoint_(U, L->get_variables()), "C21:layer-move-shared", h << " shares a parameter with the moved-from layer");
		L.reset();
		RV_CHECK(values(U) == W, "C21:layer-move-dead", "the moved layer lost its parameters with the original");
	}
}
static double relu (double x) { return x > 0 ? x : -x; }
struct Act { const char* name; std::function<vp(inode<double>*)> g; double (*f) (double); };
static double ident (double x) { return x; }
static double mysin (double x) { return ::sin(x); }
static double mytanh (double x) { return ::tanh(x); }
static double scale_ (double x) { return x * 0.75; }
static const std::vector<Act>& acts (void)
{
	static std::vector<Act> a = {
		{"sigmoid", [](inode<double>* x) { return nnet::sigmoid<double>(vp(x)); }, sig},
		{"tanh", [](inode<double>* x) { return nnet::tanh<double>(vp(x)); }, mytanh},
		{"sin", [](inode<double>* x) { return nnet::sin<double>(vp(x)); }, mysin},
		{"scale", [](inode<double>* x) { return vp(x) * 0.75; }, scale_},
		{"none", [](inode<double>* x) { return vp(x); }, ident},
	};
	return a;
}
static void mlp_case (void)
{
	size_t nin = rdim(1, 5, 10), nb = rdim(1, 4, 10), nl = rnd(1, 3);
	std::vector<IN_PAIR> hid; std::vector<size_t> sz; std::vector<size_t> ac;
	std::string h = "mlp " + std::to_string(nin);
	for (size_t i = 0; i < nl; i++) { sz.push_back(rdim(1, 5, 10)); ac.push_back(rnd(0, acts().size() - 1)); hid.push_back({sz[i], acts()[ac[i]].g}); h += ">" + std::to_string(sz[i]) + acts()[ac[i]].name; }
	h += " batch " + std::to_string(nb);
	begin("perceptron", h);
	std::unique_ptr<mlp> M(new mlp(nin, hid, "M"));
	auto V = M->get_variables();
	RV_CHECK(V.size() == 2 * nl && M->get_ninput() == nin && M->get_noutput() == sz.back(), "C21:mlp-size", h << ": " << V.size() << " variables, " << M->get_ninput() << " inputs, " << M->get_noutput() << " outputs");
	if (C().failed.size()) return;
	for (auto v : V) v->initialize();
	set_values(V, -1, 1);
	placeholder<double> in(tensorshape(dims_t{nin, coin() ? 0 : nb}), "in");
	vals_t x = rvecd(nin * nb, -2, 2);
	in = x;
	auto formula = [&](const std::vector<vals_t>& W)
	{
		vals_t y = x; size_t n = nin;
		for (size_t i = 0; i < nl; i++) { y = map_(affine(y, n, nb, W[2 * i], sz[i], W[2 * i + 1]), acts()[ac[i]].f); n = sz[i]; }
		return y;
	};
	vp out = M->prop_up(&in);
	dims_t od = {sz.back(), nb};
	agree("C21:mlp", h, out.get(), od, formula(values(V)));
	x = rvecd(nin * nb, -2, 2); in = x;
	agree("C21:mlp-update", h, out.get(), od, formula(values(V)));
	std::unique_ptr<mlp> prev; vp pout;
	for (int step = 0, n = rnd(1, 3); step < n && C().failed.empty(); step++)
	{
		int mode = rnd(0, 3);
		static const char* MN[] = {"clone", "copy assignment", "move", "move assignment"};
		std::vector<vals_t> W = values(M->get_variables());
		h += std::string(" ") + MN[mode]; begin("perceptron", h);
		std::unique_ptr<mlp> N;
		if (mode == 0) N.reset(M->clone(coin() ? "" : "N"));
		else { if (mode != 2) N.reset(new mlp(2, {IN_PAIR(3, acts()[0].g), IN_PAIR(2, acts()[1].g)}, "N")); if (mode == 1) *N = *M; else if (mode == 2) N.reset(M->move()); else *N = std::move(*M); }
		auto U = N->get_variables();
		RV_CHECK(N->get_ninput() == nin && N->get_noutput() == sz.back(), "C21:mlp-copy-size", h << ": " << N->get_ninput() << " inputs, " << N->get_noutput() << " outputs");
		RV_CHECK(values(U) == W, "C21:mlp-copy-values", h << " has other parameters");
		if (C().failed.size()) return;
		agree("C21:mlp-copy", h, N->prop_up(&in).get(), od, formula(W));
		RV_CHECK(disjoint_(U, M->get_variables()), "C21:mlp-copy-shared", h << " shares a parameter with its source");
		if (mode < 2)
		{
			set_values(U, 0.5, 0.9);
			RV_CHECK(values(M->get_variables()) == W, "C21:mlp-copy-dependent", "changing the copy changed the original");
			agree("C21:mlp-original", h, M->prop_up(&in).get(), od, formula(W));
			set_values(M->get_variables(), -1, 1);
			RV_CHECK(values(U) != W, "C21:mlp-copy-dependent", "changing the original changed the copy");
		}
		// the source may go first
		std::vector<vals_t> WN = values(U);
		if (coin() || mode >= 2) { M.reset(); RV_CHECK(values(N->get_variables()) == WN, "C21:mlp-source-death", "the copy lost its parameters with its source"); agree("C21:mlp-after-death", h, N->prop_up(&in).get(), od, formula(WN)); }
		M = std::move(N);
	}
}
// training one perceptron leaves its copy alone
static void train_case (void)
{
	size_t nin = rnd(1, 3), nout = rnd(1, 3), nb = rnd(1, 3);
	std::string h = "train " + std::to_string(nin) + ">" + std::to_string(nout);
	begin("training", h);
	std::vector<IN_PAIR> hid = {IN_PAIR(rnd(1, 4), acts()[0].g), IN_PAIR(nout, acts()[0].g)};
	mlp* brain = new mlp(nin, hid, "T");
	for (auto v : brain->get_variables()) v->initialize();
	set_values(brain->get_variables(), -1, 1);
	std::unique_ptr<mlp> copy(brain->clone("C"));
	std::vector<vals_t> W = values(copy->get_variables());
	vgb_updater up(0.3);
	{
		gd_net net(brain, up, "net");
		std::unique_ptr<gd_net> other;
		if (coin()) other.reset(new gd_net(net, "other"));
		vals_t x = rvecd(nin * nb, -2, 2), y = rvecd(nout * nb, 0, 1);
		vals_t before, after;
		{
			vals_t q = x;
			before = net(q);
			vals_t ov; if (other) ov = (*other)(q);
			if (other) for (size_t i = 0; i < ov.size(); i++) RV_CHECK(close(ov[i], before[i]), "C21:net-copy", "a copied net computes another function");
			for (int i = 0, n = rnd(1, 3); i < n; i++) { vals_t a = x, b = y; net.train(a, b); }
			after = net(q);
			// every training step moves the parameters, also when its data is the data of the step before
			auto w0 = values(brain->get_variables());
			{ vals_t a = coin() ? x : rvecd(nin * nb, -2, 2), b = coin() ? y : rvecd(nout * nb, 0, 1); begin("training", h + " one more step"); net.train(a, b); }
			RV_CHECK(values(brain->get_variables()) != w0, "C21:step-nothing", "a training step changed no parameter");
			after = net(q);
			if (other) RV_CHECK((*other)(q) == ov, "C21:net-copy-trained", "training one net changed its copy");
		}
		RV_CHECK(values(brain->get_variables()) != W, "C21:train-nothing", "training changed no parameter");
		RV_CHECK(values(copy->get_variables()) == W, "C21:train-copy", "training one perceptron changed its copy");
		// the net computes the perceptron's current function
		vals_t z = x; size_t n = nin; auto P = values(brain->get_variables());
		for (size_t i = 0; i < P.size(); i += 2) { size_t o = P[i + 1].size(); z = map_(affine(z, n, nb, P[i], o, P[i + 1]), sig); n = o; }
		for (size_t i = 0; i < z.size() && i < after.size(); i++) RV_CHECK(after.size() == z.size() && close(after[i], z[i], 1e-8), "C21:net", "after training the net computes " << str(after) << ", its parameters give " << str(z));
	}
	RV_CHECK(values(copy->get_variables()) == W, "C21:train-copy-death", "destroying one perceptron changed its copy");
}
static void c21 (void) { while (more() && C().failed.empty()) { fc_case(); if (C().failed.empty()) mlp_case(); if (coin(4) && C().failed.empty()) train_case(); } }

//==================================================================== C22
static void rbm_case (void)
{
	size_t nin = rdim(1, 5, 10), nh = rdim(1, 5, 10), nb = rdim(1, 4, 8);
	std::string h = "rbm " + std::to_string(nin) + "," + std::to_string(nh) + " batch " + std::to_string(nb);
	begin("boltzmann", h);
	std::unique_ptr<rbm> R(new rbm(nin, nh, "R"));
	auto V = R->get_variables();
	RV_CHECK(V.size() == 3 && R->get_ninput() == nin && R->get_noutput() == nh, "C22:rbm-size", h << " has sizes " << R->get_ninput() << "," << R->get_noutput());
	if (V.size() != 3) return;
	RV_CHECK(V[0]->get_shape().as_list() == dims_t({nh, nin}) && V[1]->get_shape().as_list() == dims_t({nh}) && V[2]->get_shape().as_list() == dims_t({nin}), "C22:rbm-shapes", "parameter shapes differ");
	for (auto v : V) v->initialize();
	set_values(V, -2, 2);
	placeholder<double> in(tensorshape(dims_t{nin, nb}), "in"), hid(tensorshape(dims_t{nh, nb}), "hid");
	vals_t x = rvecd(nin * nb, -2, 2), y = rvecd(nh * nb, -2, 2);
	in = x; hid = y;
	auto up = [&](const std::vector<vals_t>& W) { return map_(affine(x, nin, nb, W[0], nh, W[1]), sig); };
	auto down = [&](const std::vector<vals_t>& W) { return map_(affine(y, nh, nb, W[0], nin, W[2], true), sig); };
	auto look = [&](const std::string& k, rbm& r, const std::vector<vals_t>& W)
	{
		agree(k + "-up", h, r.prop_up(&in).get(), {nh, nb}, up(W));
		agree(k + "-down", h, r.prop_down(&hid).get(), {nin, nb}, down(W));
	};
	look("C22:rbm", *R, values(V));
	x = rvecd(nin * nb, -2, 2), y = rvecd(nh * nb, -2, 2); in = x; hid = y;
	set_values(V, -1, 1);
	look("C22:rbm-update", *R, values(V));
	for (int step = 0, n = rnd(1, 3); step < n && C().failed.empty(); step++)
	{
		int mode = rnd(0, 4);
		static const char* MN[] = {"clone", "copy assignment", "move", "move assignment", "self assignment"};
		std::vector<vals_t> W = values(R->get_variables());
		h += std::string(" ") + MN[mode]; begin("boltzmann", h);
		if (mode == 4)
		{
			rbm& r = *R; *R = r;
			RV_CHECK(values(R->get_variables()) == W, "C22:rbm-self", "self assignment changed the machine");
			if (C().failed.empty()) look("C22:rbm-self", *R, W);
			continue;
		}
		std::unique_ptr<rbm> S;
		if (mode == 0) S.reset(R->clone(coin() ? "" : "S"));
		else { if (mode != 2) { S.reset(new rbm(rnd(1, 3), rnd(1, 3), "S")); if (coin()) for (auto v : S->get_variables()) v->initialize(); } if (mode == 1) *S = *R; else if (mode == 2) S.reset(R->move()); else *S = std::move(*R); }
		RV_CHECK(S->get_ninput() == nin && S->get_noutput() == nh, "C22:rbm-copy-size", h << " has sizes " << S->get_ninput() << "," << S->get_noutput());
		RV_CHECK(values(S->get_variables()) == W, "C22:rbm-copy-values", h << " has other parameters");
		if (C().failed.size()) return;
		look("C22:rbm-copy", *S, W);
		if (mode < 2)
		{
			RV_CHECK(disjoint_(S->get_variables(), R->get_variables()), "C22:rbm-copy-shared", h << " shares a parameter");
			set_values(S->get_variables(), 2, 3);
			RV_CHECK(values(R->get_variables()) == W, "C22:rbm-copy-dependent", "changing the copy changed the original");
			look("C22:rbm-original", *R, W);
		}
		std::vector<vals_t> WS = values(S->get_variables());
		if (coin() || mode >= 2) { R.reset(); RV_CHECK(values(S->get_variables()) == WS, "C22:rbm-source-death", "the copy lost its parameters with its source"); }
		if (C().failed.empty()) look("C22:rbm-after", *S, WS);
		R = std::move(S);
	}
}
static void dbn_case (void)
{
	size_t nin = rdim(1, 5, 10), nl = rnd(1, 4), nb = coin(3) ? rnd(2, 4) : 1;
	std::vector<size_t> hs;
	for (size_t i = 0; i < nl; i++) hs.push_back(rdim(1, 5, 10));
	std::string h = "belief net " + std::to_string(nin) + str(hs) + " batch " + std::to_string(nb);
	begin("belief net", h);
	std::unique_ptr<db_net> D(new db_net(nin, hs, "D"));
	auto V = D->get_variables();
	RV_CHECK(V.size() == 3 * (nl - 1) + 2 && D->get_ninput() == nin && D->get_noutput() == hs.back(), "C22:dbn-size", h << " has " << V.size() << " variables and sizes " << D->get_ninput() << "," << D->get_noutput());
	if (C().failed.size()) return;
	for (auto v : V) v->initialize();
	set_values(V, -1.5, 1.5);
	placeholder<double> in(tensorshape(dims_t{nin, coin() ? 0 : nb}), "in");
	vals_t x = rvecd(nin * nb, -2, 2);
	in = x;
	auto look = [&](const std::string& key, db_net& d, const std::vector<vals_t>& W)
	{
		vals_t y = x; size_t n = nin;
		for (size_t i = 0; i + 1 < nl; i++) { y = map_(affine(y, n, nb, W[3 * i], hs[i], W[3 * i + 1]), sig); n = hs[i]; }
		size_t no = hs.back();
		y = map_(affine(y, n, nb, W[3 * (nl - 1)], no, W[3 * (nl - 1) + 1]), ::exp);
		vp o = d.prop_up(&in);
		const tensor<double>* t = o->eval();
		RV_CHECK(t && trim_(t->get_shape().as_list()) == trim_(dims_t({no, nb})), key, h << ": output has another shape");
		if (nullptr == t) return;
		vals_t got = t->expose();
		// a distribution proportional to the exponentials of the output layer, column by column
		for (size_t b = 0; b < nb; b++) for (size_t k = 0; k < no; k++)
			RV_CHECK(got.size() == y.size() && close(got[k + b * no] * y[b * no], got[b * no] * y[k + b * no], 1e-8) && got[k + b * no] > 0, key, h << ": output " << str(got) << " is not proportional to " << str(y));
		double s = 0, w = 0;
		for (size_t i = 0; i < y.size(); i++) { s += got[i]; w += y[i]; }
		if (nb == 1) { RV_CHECK(close(s, 1, 1e-8), key, h << ": the outputs sum to " << s); }
	};
	look("C22:dbn", *D, values(V));
	x = rvecd(nin * nb, -2, 2); in = x;
	set_values(V, -1, 1);
	look("C22:dbn-update", *D, values(V));
	for (int step = 0, n = rnd(1, 3); step < n && C().failed.empty(); step++)
	{
		int mode = rnd(0, 4);
		static const char* MN[] = {"clone", "copy assignment", "move", "move assignment", "self assignment"};
		std::vector<vals_t> W = values(D->get_variables());
		h += std::string(" ") + MN[mode]; begin("belief net", h);
		if (mode == 4) { db_net& r = *D; *D = r; RV_CHECK(values(D->get_variables()) == W, "C22:dbn-self", "self assignment changed the net"); continue; }
		std::unique_ptr<db_net> S;
		if (mode == 0) S.reset(D->clone(coin() ? "" : "S"));
		else { if (mode != 2) { S.reset(new db_net(rnd(1, 3), {rnd(1, 3), rnd(1, 3)}, "S")); if (coin()) for (auto v : S->get_variables()) v->initialize(); } if (mode == 1) *S = *D; else if (mode == 2) S.reset(D->move()); else *S = std::move(*D); }
		RV_CHECK(S->get_ninput() == nin && S->get_noutput() == hs.back() && S->layers_.size() == nl - 1, "C22:dbn-copy-size", h << " has sizes " << S->get_ninput() << "," << S->get_noutput());
		RV_CHECK(S->log_layer_ != nullptr, "C22:dbn-copy-output", h << " has no output layer");
		if (C().failed.size()) return;
		RV_CHECK(values(S->get_variables()) == W, "C22:dbn-copy-values", h << " has other parameters");
		for (size_t i = 0; i + 1 < nl && C().failed.empty(); i++) RV_CHECK(S->layers_[i]->get_ninput() == (i ? hs[i - 1] : nin) && S->layers_[i]->get_noutput() == hs[i], "C22:dbn-layer-size", "layer " << i << " of the copy has sizes " << S->layers_[i]->get_ninput() << "," << S->layers_[i]->get_noutput());
		if (C().failed.size()) return;
		look("C22:dbn-copy", *S, W);
		if (mode < 2)
		{
			RV_CHECK(disjoint_(S->get_variables(), D->get_variables()), "C22:dbn-copy-shared", h << " shares a parameter");
			set_values(S->get_variables(), 1, 2);
			RV_CHECK(values(D->get_variables()) == W, "C22:dbn-copy-dependent", "changing the copy changed the original");
			look("C22:dbn-original", *D, W);
		}
		std::vector<vals_t> WS = values(S->get_variables());
		if (coin() || mode >= 2) { D.reset(); RV_CHECK(values(S->get_variables()) == WS, "C22:dbn-source-death", "the copy lost its parameters with its source"); }
		if (C().failed.empty()) look("C22:dbn-after", *S, WS);
		D = std::move(S);
	}
}
static void c22 (void) { while (more() && C().failed.empty()) { rbm_case(); if (C().failed.empty()) dbn_case(); } }

//==================================================================== C20
static void agent_history (void)
{
	size_t nin = rnd(1, 4), nout = rdim(1, 5, 9);
	dqn_param P;
	P.train_interval_ = coin(4) ? 1 : rnd(1, 6);
	P.store_interval_ = coin(4) ? 1 : rnd(1, 6);
	P.mini_batch_size_ = rnd(1, 5);
	P.max_exp_ = coin(8) ? 0 : rdim(1, 9, 20);
	P.rand_action_prob_ = coin(4) ? 0 : coin(4) ? 1 : rndd(0, 1);
	P.exploration_period_ = coin(6) ? 0 : coin() ? (double) rnd(1, 30) : rndd(0.5, 30);
	P.discount_rate_ = rndd(0, 1);
	P.target_update_rate_ = rndd(0, 1);
	std::ostringstream hs;
	hs << "agent in " << nin << " out " << nout << " train every " << P.train_interval_ << " store every " << P.store_interval_ << " batch " << P.mini_batch_size_ << " capacity " << P.max_exp_ << " final " << P.rand_action_prob_ << " over " << P.exploration_period_ << ";";
	std::string h = hs.str();
	begin("agent", h);
	mlp* brain = new mlp(nin, {IN_PAIR(rnd(1, 4), acts()[0].g), IN_PAIR(nout, acts()[4].g)}, "brain");
	std::unique_ptr<gd_updater> up;
	if (coin()) up.reset(new vgb_updater(0.1)); else up.reset(new rmspropupdater(0.1, 0.9));
	std::unique_ptr<dq_net> A(new dq_net(brain, *up, P, "A"));
	{
		for (auto v : A->source_qnet_->get_variables()) v->initialize();
		for (auto v : A->target_qnet_->get_variables()) v->initialize();
	}
	set_values(A->source_qnet_->get_variables(), -1, 1);
	std::vector<vals_t> W = values(A->source_qnet_->get_variables()), T = values(A->target_qnet_->get_variables());
	size_t acted = 0, scalls = 0, trained = 0, tcount = 0;
	struct Exp { vals_t o; size_t a; double r; vals_t n; bool operator == (const Exp& e) const { return o == e.o && a == e.a && r == e.r && n == e.n; } };
	std::vector<Exp> mem, offered;
	auto memory = [&]() { std::vector<Exp> m; for (auto& e : A->experiences_) m.push_back({e.observation_, e.action_idx_, e.reward_, e.new_observation_}); return m; };
	for (size_t s = 0, len = rnd(5, 60); s < len && C().failed.empty(); s++)
	{
		int o = rnd(0, 9);
		if (o < 3)
		{
			h += "a"; begin("agent", h);
			vals_t x = rvecd(nin, -2, 2);
			// probability of exploring at this step
			double before = A->linear_annealing(1.0);
			auto p_at = [&](size_t k) { return (double) k >= P.exploration_period_ ? P.rand_action_prob_ : 1.0 - k * (1.0 - P.rand_action_prob_) / P.exploration_period_; };
			RV_CHECK(close(before, p_at(acted), 1e-12), "C20:annealing", "after " << acted << " actions the exploration probability is " << before << ", linear decay gives " << p_at(acted));
			double a = A->action(x);
			acted++;
			double after = A->linear_annealing(1.0);
			RV_CHECK(close(after, p_at(acted), 1e-12) && after <= 1 && after >= 0, "C20:annealing", "after " << acted << " actions the exploration probability is " << after << ", linear decay gives " << p_at(acted));
			double init = rndd(0.3, 1), want = (double) acted >= P.exploration_period_ ? P.rand_action_prob_ : init - acted * (init - P.rand_action_prob_) / P.exploration_period_;
			RV_CHECK(close(A->linear_annealing(init), want, 1e-12), "C20:annealing-from", "decay from " << init << " gives " << A->linear_annealing(init) << " after " << acted);
			RV_CHECK(a >= 0 && a < nout && a == std::floor(a), "C20:action-range", "action " << a << " of " << nout);
			if (after == 0)
			{
				vals_t q = (*A)(x);
				size_t best = std::max_element(q.begin(), q.end()) - q.begin();
				RV_CHECK(q.size() == nout && a == best, "C20:greedy", "without exploration the action is " << a << ", scores " << str(q));
			}
		}
		else if (o < 7)
		{
			Exp e{rvecd(nin, -2, 2), rnd(0, nout - 1), rndd(-1, 1), coin(4) ? vals_t{} : rvecd(nin, -2, 2)};
			h += "s"; begin("agent", h);
			A->store(e.o, e.a, e.r, e.n);
			bool due = scalls % P.store_interval_ == 0;
			scalls++;
			std::vector<Exp> m = memory();
			RV_CHECK(m.size() <= P.max_exp_, "C20:capacity", m.size() << " transitions stored, capacity " << P.max_exp_);
			if (due) offered.push_back(e);
			if (false == due) RV_CHECK(m == mem, "C20:store-interval", "call " << scalls << " stored although every " << P.store_interval_ << " is configured");
			else if (mem.size() < P.max_exp_)
			{
				std::vector<Exp> w = mem; w.push_back(e);
				RV_CHECK(m == w, "C20:stored", "call " << scalls << " did not store its transition");
			}
			else
			{
				// full: the new transition may replace one, nothing else changes
				RV_CHECK(m.size() == P.max_exp_, "C20:full-size", "a full memory shrank to " << m.size());
				size_t diff = 0; for (size_t i = 0; i < m.size() && i < mem.size(); i++) if (false == (m[i] == mem[i])) { diff++; RV_CHECK(m[i] == e, "C20:full-other", "a transition that was never offered is stored"); }
				RV_CHECK(diff <= 1 && (P.max_exp_ == 0 || std::count(m.begin(), m.end(), e) >= 1), "C20:full-replace", diff << " transitions replaced in a full memory");
			}
			mem = m;
		}
		else
		{
			h += "t"; begin("agent", h);
			bool bad = false;
			for (auto& v : W) for (double x : v) bad = bad || false == (std::fabs(x) < 1e6);
			if (bad) break;
			std::vector<vals_t> w0 = values(A->source_qnet_->get_variables()), t0 = values(A->target_qnet_->get_variables());
			A->train();
			// the first call with a full batch trains, then every train_interval_-th
			bool due = tcount % P.train_interval_ == 0;
			bool run = due && mem.size() >= P.mini_batch_size_;
			if (false == due || run) tcount++;
			if (run) trained++;
			RV_CHECK(A->get_numtrained() == trained, "C20:train-interval", A->get_numtrained() << " training steps, the schedule gives " << trained);
			std::vector<vals_t> w1 = values(A->source_qnet_->get_variables()), t1 = values(A->target_qnet_->get_variables());
			if (false == run) RV_CHECK(w1 == w0 && t1 == t0, "C20:train-quiet", "parameters changed although no training step was due");
			// the target network follows the source by the configured rate
			if (run) for (size_t i = 0; i < t0.size(); i++) for (size_t j = 0; j < t0[i].size(); j++)
				RV_CHECK(close(t1[i][j], t0[i][j] - P.target_update_rate_ * (t0[i][j] - w1[i][j]), 1e-7), "C20:target", "target parameter moved from " << t0[i][j] << " to " << t1[i][j] << " while the source is " << w1[i][j] << " and the rate " << P.target_update_rate_);
			RV_CHECK(memory() == mem, "C20:train-memory", "training changed the memory");
			W = w1;
		}
		if (mem.size() >= P.mini_batch_size_ && coin(6))
		{
			auto smp = A->random_sample();
			RV_CHECK(smp.size() == P.mini_batch_size_, "C20:sample-size", smp.size() << " samples for batches of " << P.mini_batch_size_);
			std::vector<Exp> rest = mem;
			for (auto& e : smp) { auto it = std::find(rest.begin(), rest.end(), Exp{e.observation_, e.action_idx_, e.reward_, e.new_observation_}); RV_CHECK(it != rest.end(), "C20:sample", "a sample is not a stored transition or is drawn twice"); if (it != rest.end()) rest.erase(it); }
		}
	}
}
// frequencies: exploration happens with the configured probability and reaches every action
static void explore_case (void)
{
	size_t nout = rnd(2, 5);
	dqn_param P;
	P.rand_action_prob_ = coin(3) ? 1 : coin(3) ? 0 : rndd(0.1, 0.9);
	P.exploration_period_ = 0;
	std::string h = "explore " + std::to_string(P.rand_action_prob_) + " of " + std::to_string(nout);
	begin("exploration", h);
	mlp* brain = new mlp(2, {IN_PAIR(nout, acts()[4].g)}, "brain");
	vgb_updater up(0.1);
	dq_net A(brain, up, P, "A");
	for (auto v : A.source_qnet_->get_variables()) v->initialize();
	set_values(A.source_qnet_->get_variables(), -1, 1);
	vals_t x = rvecd(2, 0.5, 1);
	vals_t q = A(x);
	size_t best = std::max_element(q.begin(), q.end()) - q.begin();
	size_t N = 4000, other = 0;
	std::vector<size_t> cnt(nout, 0);
	for (size_t i = 0; i < N; i++) { double a = A.action(x); if (false == (a >= 0 && a < nout)) { RV_CHECK(false, "C20:action-range", "action " << a << " of " << nout); return; } cnt[(size_t) a]++; other += a != best; }
	double p = P.rand_action_prob_ * (nout - 1) / nout, sd = std::sqrt(p * (1 - p) / N);
	RV_CHECK(std::fabs((double) other / N - p) <= 6 * sd + 1e-12, "C20:frequency", "exploring with probability " << P.rand_action_prob_ << " chose another action " << other << " of " << N << " times, expected " << p * N);
	double pe = P.rand_action_prob_ / nout, se = std::sqrt(pe * (1 - pe) / N);
	for (size_t i = 0; i < nout; i++) if (i != best) RV_CHECK(std::fabs((double) cnt[i] / N - pe) <= 6 * se + 1e-12, "C20:frequency-each", "action " << i << " chosen " << cnt[i] << " of " << N << " times, expected " << pe * N);
}
static void c20 (void) { for (int n = 0; more() && C().failed.empty(); n++) { agent_history(); if (n % 40 == 0 && C().failed.empty()) explore_case(); } }

int main (int argc, char** argv) { return main_(argc, argv, {{"C20", c20}, {"C21", c21}, {"C22", c22}}); }
