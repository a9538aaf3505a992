//@small
//@strings
// Saving and loading: an archive in memory receives what the networks write, by name.
#include "netref.h"
struct Item { char path[96]; int r, c; R v[32]; bool used; };
static Item g_it[80]; static int g_cnt;
static bool sEq(const char* a, const char* b) { for (; *a && *a == *b; ++a, ++b); return *a == *b; }
static void sCat(char* d, const char* s) { while (*d) ++d; while ((*d++ = *s++)); }
static Item* find(const char* p) { for (int i = 0; i < g_cnt; ++i) if (sEq(g_it[i].path, p)) return &g_it[i]; return nullptr; }
template<bool SV> class Arc : public serialization::simple_archive<Arc<SV>, SV>, public utils::binary_options<serialization::CommonOptions> {
	char m_path[96]; const char* m_cur = nullptr; bool m_ok = true;
	void name(char* d) { d[0] = 0; sCat(d, m_path); sCat(d, m_cur); m_cur = nullptr; }
	Item* make(int r, int c) { vs_assert(m_cur, "what is written has a name"); Item& t = g_it[g_cnt]; name(t.path); vs_assert(!find(t.path), "every name is written once"); t.r = r; t.c = c; t.used = false; ++g_cnt; return &t; }
	Item* get() { vs_assert(m_cur, "what is read has a name"); char p[96]; name(p); Item* t = find(p); if (!t) m_ok = false; else t->used = true; return t; }
	template<class F> void in(const char* n, F f) { vs_assert(!m_cur, "names do not nest"); int l = 0; while (m_path[l]) ++l; sCat(m_path, n); sCat(m_path, "/"); f(); m_path[l] = 0; }
public:
	Arc() { m_path[0] = 0; turn_on_all_options(); } bool success() const { return m_ok; } void mark_invalid_var() { m_ok = false; } const char* get_last_error_str() const { return ""; }
	template<class T> Arc& operator<<(const ::boost::serialization::nvp<T>& t) { vs_assert(!m_cur, "names do not nest"); m_cur = t.name(); *this << t.const_value(); vs_assert(!m_cur, "something was written under the name"); return *this; }
	template<class T> Arc& operator<<(const serialization::named_struct<T>& t) { in(t.name(), [&] { *this << t.const_value(); }); return *this; }
	template<class T> Arc& operator>>(::boost::serialization::nvp<T>& t) { vs_assert(!m_cur, "names do not nest"); m_cur = t.name(); *this >> t.value(); return *this; }
	template<class T> Arc& operator>>(const ::boost::serialization::nvp<T>& t) { return *this >> const_cast<::boost::serialization::nvp<T>&>(t); }
	template<class T> Arc& operator>>(serialization::named_struct<T>& t) { in(t.name(), [&] { *this >> t.value(); }); return *this; }
	template<class T> Arc& operator>>(const serialization::named_struct<T>& t) { return *this >> const_cast<serialization::named_struct<T>&>(t); }
	Arc& operator<<(const M& m) { Item* t = make((int)m.rows(), (int)m.cols()); for (int i = 0; i < t->r * t->c; ++i) t->v[i] = m.begin()[i]; return *this; }
	Arc& operator<<(const smatrix_deform<R>& m) { return *this << static_cast<const M&>(m); }
	Arc& operator>>(M& m) { Item* t = get(); if (t) { m.clear(); m.dont_emulate_biases(); vs_assert(m.resize(t->r, t->c), "memory"); for (int i = 0; i < t->r * t->c; ++i) m.begin()[i] = t->v[i]; } return *this; }
	Arc& operator>>(smatrix_deform<R>& m) { *this >> static_cast<M&>(m); if (m_ok) m.update_on_hidden_resize(); return *this; }
	template<size_t B> Arc& operator<<(const std::bitset<B>&) { m_cur = nullptr; return *this; }
	template<class T> std::enable_if_t<std::is_arithmetic<T>::value, Arc&> operator<<(const T& v) { make(1, 1)->v[0] = (R)v; return *this; }
	template<class T> std::enable_if_t<std::is_arithmetic<T>::value, Arc&> operator>>(T& v) { Item* t = get(); if (t) v = std::is_same<T, bool>::value ? t->v[0] != 0 : (T)t->v[0]; return *this; }
	template<class T> std::enable_if_t<!std::is_arithmetic<T>::value, Arc&> operator<<(const T& t) { ::boost::serialization::serialize_adl(*this, const_cast<T&>(t), 0u); return *this; }
	template<class T> std::enable_if_t<!std::is_arithmetic<T>::value, Arc&> operator>>(T& t) { ::boost::serialization::serialize_adl(*this, t, 0u); return *this; }
	template<class T> Arc& operator&(const T& t) { if constexpr (SV) return *this << t; else return *this >> const_cast<T&>(t); }
};
typedef LFC<activation::sigm<R>, GWk> FS; typedef LFC<activation::identity<R>, GWk> FI; typedef layer_output<activation::identity_quad_loss<R>, GWk> OI;
static char g_p[96]; static const char* P_(const char* leaf) { sCat(g_p, leaf); return g_p; }
template<class L, class... A> static const char* P_(const L& l, const A&... a) { auto n = l.get_layer_name_str(); sCat(g_p, n.c_str()); sCat(g_p, "/"); return P_(a...); }
template<class... A> static const char* P(const A&... a) { g_p[0] = 0; return P_(a...); }
static void holds(const char* path, bool on, const M& m, const char* l) { Item* t = find(path); if (on) { vs_assert(t, l); vs_assert(t->r == (int)m.rows() && t->c == (int)m.cols(), l); for (int i = 0; i < t->r * t->c; ++i) eqR(t->v[i], m.begin()[i], l); } else vs_assert(!t, "what was not asked for is not written"); }
static void holds(const char* path, bool on, R v, const char* l) { Item* t = find(path); if (on) { vs_assert(t && t->r == 1 && t->c == 1, l); eqR(t->v[0], v, l); } else vs_assert(!t, "what was not asked for is not written"); }
template<class S> static void opts(S& a, unsigned o) { a.turn_off_all_options(); for (int k = 0; k < serialization::total_options; ++k) if (o >> k & 1) a.m_binary_options.set(k); }
//@ prop=C36 entry=h_net mode=real reach=saved,loaded
//@bounds network of 1 input, vertical pack inside a horizontal pack beside a single neuron, 1 output; any weights; every set of options that concern it; before and after a training step; loaded into an equally built network that is not yet, or already, initialised with other weights
extern "C" void h_net() {
	vs_set_threads(2); unsigned o = 0; bool sx = vs_choose("x", 2), st = vs_choose("parameters", 2), sa = vs_choose("activations", 2), sw = vs_choose("weights", 2), sg = vs_choose("gradworks", 2), ss = vs_choose("state", 2); o = (sx ? 1u << serialization::serialize_data_x : 0) | (st ? 1u << serialization::serialize_training_parameters : 0) | (sa ? 1u << serialization::serialize_activations : 0) | (sw ? 1u << serialization::serialize_weights : 0) | (sg ? 1u << serialization::serialize_grad_works : 0) | (ss ? 1u << serialization::serialize_grad_works_state : 0);
	auto with = [&](auto&& f, const char* pre) { layer_input<NI> inp(1, "in"); FS v1("va", 1, 0.25); FI v2("vb", 1, 0.5), h("hh", 2, 0.125); OI out("oo", 1, 2.); auto pv = make_layer_pack_vertical("pv", v1, v2); auto ph = make_layer_pack_horizontal("ph", make_PHL(pv, 0, 1), make_PHL(h, 0, 1)); auto lp = make_layers(inp, ph, out); nnet<decltype(lp)> nn(lp); f(nn, lp, inp, v1, v2, h, out, pv, ph); };
	T w1, w2, w3, w4; bool tr = vs_choose("step", 2);
	with([&](auto& nn, auto& lp, auto& inp, auto& v1, auto& v2, auto& h, auto& out, auto& pv, auto& ph) {
		setW(v1, 1, "w"); setW(v2, 1, "w"); setW(h, 1, "w"); setW(out, 3, "w"); auto ec = nn.___init(1, 1, false); vs_assert(ec == decltype(ec)::Success, "initialises"); M X(1, 1, true), Y(1, 1); sym(X, "x"); E(Y, 0, 0) = 0; mode(nn, true, 1); lp.fprop(X); if (tr) { lp.bprop(Y); newW(v1, "n"); newW(v2, "n"); newW(h, "n"); newW(out, "n"); }
		w1 = wOf(v1.get_weights()); w2 = wOf(v2.get_weights()); w3 = wOf(h.get_weights()); w4 = wOf(out.get_weights()); Arc<true> a; opts(a, o); a & nn; vs_assert(a.success(), "saved"); same(v1.get_weights(), w1, "saving changes nothing"); same(v2.get_weights(), w2, "saving changes nothing"); same(h.get_weights(), w3, "saving changes nothing"); same(out.get_weights(), w4, "saving changes nothing");
		holds(P(inp, "data_x"), sx, X, "input data"); holds(P(ph, pv, v1, "m_weights"), sw, v1.get_weights(), "weights of an inner layer"); holds(P(ph, pv, v2, "m_weights"), sw, v2.get_weights(), "weights of an inner layer"); holds(P(ph, h, "m_weights"), sw, h.get_weights(), "weights of an inner layer"); holds(P(out, "m_weights"), sw, out.get_weights(), "weights of the output layer"); holds(P(out, "m_activations"), sa, out.get_activations(), "activations"); holds(P(ph, h, "m_activations"), sa, h.get_activations(), "activations");
		holds(P(ph, h, "m_learningRate"), sg && st, 0.125, "learning rate"); holds(P(out, "m_learningRate"), sg && st, 2, "learning rate"); holds(P(ph, pv, v2, "m_momentum"), sg && st, 0, "momentum"); vs_reach("saved"); }, "");
	if (!sw) return;
	with([&](auto& nn, auto& lp, auto& inp, auto& v1, auto& v2, auto& h, auto& out, auto& pv, auto& ph) {
		bool ini = vs_choose("initialised", 2); if (ini) { setW(v1, 1, "u"); setW(v2, 1, "u"); setW(h, 1, "u"); setW(out, 3, "u"); auto ec = nn.___init(1, 1, false); vs_assert(ec == decltype(ec)::Success, "initialises"); } Arc<false> a; opts(a, 1u << serialization::serialize_weights); a & nn; vs_assert(a.success(), "loaded"); if (!ini) { auto ec = nn.___init(1, 1, false); vs_assert(ec == decltype(ec)::Success, "initialises"); }
		same(v1.get_weights(), w1, "weights come back"); same(v2.get_weights(), w2, "weights come back"); same(h.get_weights(), w3, "weights come back"); same(out.get_weights(), w4, "weights come back"); vs_reach("loaded"); }, "");
}
template<class O> static void setTy(O& gw, int t) { typedef std::decay_t<O> g; static const typename g::GradType ty[] = { g::ClassicalConstant, g::RMSProp_Hinton, g::ModProp, g::Adam }; gw.set_type(ty[t]); }
//@ prop=C36 entry=h_state mode=real reach=state
//@bounds output layer of 1 neuron on 1 input, four optimizers after their first step from any weights and data, any learning rate, momentum, betas and derivative limits (limits inactive); options on and off; parameters of the output layer loaded into a fresh one
extern "C" void h_state() {
	vs_set_threads(1); bool st = vs_choose("parameters", 2), sg = vs_choose("gradworks", 2), ss = vs_choose("state", 2), lim = vs_choose("limited", 2); int ty = (int)vs_choose("type", 4); R lr = 0.25, b1 = vs_num<R>("b1", 0.25, 0.75), b2 = vs_num<R>("b2", 0.25, 0.75), eps = 0.5; unsigned o = (st ? 1u << serialization::serialize_training_parameters : 0) | (sg ? 1u << serialization::serialize_grad_works : 0) | (ss ? 1u << serialization::serialize_grad_works_state : 0);
	{ layer_input<NI> inp(1, "in"); OI out("oo", 1, lr); auto& gw = out.get_gradWorks(); setTy(gw, ty); gw.beta1(b1).beta2(b2).numeric_stabilizer(eps); if (lim) out.restrict_dL_dZ(-100, 50); auto lp = make_layers(inp, out); nnet<decltype(lp)> nn(lp); M w(1, 2); R w0 = vs_num<R>("w", -4, 4); E(w, 0, 0) = w0; E(w, 0, 1) = 0.5; vs_assert(out.set_weights(std::move(w)), "weights accepted"); auto ec = nn.___init(1, 1, false); vs_assert(ec == decltype(ec)::Success, "initialises");
		M X(1, 1, true), Y(1, 1); E(X, 0, 0) = 2; R y = vs_num<R>("y", -4, 4); E(Y, 0, 0) = y; mode(nn, true, 1); lp.fprop(X); lp.bprop(Y); R d = 2 * w0 + 0.5 - y, g[2] = { d * 2, d }; Arc<true> a; opts(a, o); a & nn; vs_assert(a.success(), "saved");
		bool p = sg && st, s = sg && ss; holds(P(out, "m_learningRate"), p, lr, "learning rate"); holds(P(out, "m_optBeta1"), p, b1, "beta1"); holds(P(out, "m_optBeta2"), p, b2, "beta2"); holds(P(out, "m_numericStabilizerEps"), p, eps, "stabilizer"); holds(P(out, "m_bRestrictdLdZ"), st, lim, "limit flag"); holds(P(out, "m_dLdZRestrictLowerBnd"), st, lim ? -100 : 0, "lower limit"); holds(P(out, "m_dLdZRestrictUpperBnd"), st, lim ? 50 : 0, "upper limit");
		M A(1, 2), B(1, 2); for (int j = 0; j < 2; ++j) { E(A, 0, j) = ty == 1 ? g[j] * g[j] : ty == 2 ? (g[j] < 0 ? -g[j] : g[j]) : (1 - b1) * g[j]; E(B, 0, j) = (1 - b2) * g[j] * g[j]; } holds(P(out, "m_optMtxA"), s && ty > 0, A, "first moment"); holds(P(out, "m_optMtxB"), s && ty == 3, B, "second moment"); vs_assert(!find(P(out, "m_weights")) && !find(P(out, "m_activations")), "what was not asked for is not written"); }
	if (!st) return; layer_input<NI> inp(1, "in"); OI out("oo", 1, 0.5); if (!lim) out.restrict_dL_dZ(-1, 1); auto lp = make_layers(inp, out); nnet<decltype(lp)> nn(lp); Arc<false> a; opts(a, 1u << serialization::serialize_training_parameters); a & nn; vs_assert(a.success(), "loaded"); g_cnt = 0; Arc<true> b; opts(b, 1u << serialization::serialize_training_parameters); b & nn; holds(P(out, "m_bRestrictdLdZ"), true, lim, "limit flag comes back"); holds(P(out, "m_dLdZRestrictLowerBnd"), true, lim ? -100 : 0, "lower limit comes back"); holds(P(out, "m_dLdZRestrictUpperBnd"), true, lim ? 50 : 0, "upper limit comes back"); vs_reach("state");
}
//@ prop=C36 entry=h_wrong mode=real reach=wrong,missing
//@bounds weights of an initialised network of 2 inputs, 1 hidden and 1 output neuron loaded from an archive in which one matrix has a wrong size in either direction, or is missing
extern "C" void h_wrong() {
	vs_set_threads(1); layer_input<NI> inp(2, "in"); FS f("ff", 1, 0.25); OI out("oo", 1, 0.5); auto lp = make_layers(inp, f, out); nnet<decltype(lp)> nn(lp); T w1 = setW(f, 2, "w"), w2 = setW(out, 1, "w"); auto ec = nn.___init(1, 1, false); vs_assert(ec == decltype(ec)::Success, "initialises"); Arc<true> a; opts(a, 1u << serialization::serialize_weights); a & nn; vs_assert(g_cnt == 2, "two matrices");
	int which = (int)vs_choose("which", 2), how = (int)vs_choose("how", 4); Item* t = find(which ? P(out, "m_weights") : P(f, "m_weights")); vs_assert(t, "weights"); if (how == 0) ++t->c; else if (how == 1) --t->c; else if (how == 2) ++t->r; else t->path[0] = '?'; for (int i = 0; i < t->r * t->c; ++i) t->v[i] = 7; Arc<false> b; opts(b, 1u << serialization::serialize_weights); b & nn; vs_assert(!b.success(), "the archive is marked"); if (which) same(out.get_weights(), w2, "weights that do not fit are not taken"); else same(f.get_weights(), w1, "weights that do not fit are not taken"); if (how < 3) vs_reach("wrong"); else vs_reach("missing");
}
