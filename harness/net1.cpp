//@small
//@strings
// Networks of fully connected layers: forward pass, one training step, mode and batch size changes.
#include "netref.h"
template<int K> struct ActT; template<> struct ActT<A_ID> { typedef activation::identity<R> t; }; template<> struct ActT<A_SIGM> { typedef activation::sigm<R> t; }; template<> struct ActT<A_RELU> { typedef activation::relu<R> t; }; template<> struct ActT<A_SSGN> { typedef activation::softsign_uc_ua<R> t; };
template<int O> struct OutT; template<> struct OutT<0> { typedef activation::identity_quad_loss<R> t; static const int k = A_ID, d = A_ID; }; template<> struct OutT<1> { typedef activation::sigm_quad_loss<R> t; static const int k = A_SIGM, d = A_SIGM; }; template<> struct OutT<2> { typedef activation::sigm_xentropy_loss<R> t; static const int k = A_SIGM, d = -1; };
template<int K, int O> static void ff(bool train) {
	typedef LFC<typename ActT<K>::t, GWk> F; typedef layer_output<typename OutT<O>::t, GWk> Ou; R lr1 = vs_num<R>("lr1"), lr2 = vs_num<R>("lr2"); vl mb = train ? 2 : 3;
	layer_input<NI> inp(2); F fc(2, lr1); Ou out(1, lr2); auto lp = make_layers(inp, fc, out); nnet<decltype(lp)> nn(lp);
	T w1 = setW(fc, 2, "w1"), w2 = setW(out, 2, "w2"); auto ec = nn.___init(mb, train ? mb : 0, false); vs_assert(ec == decltype(ec)::Success, "initialises");
	for (int s = 0; s < 2; ++s) {
		vl bs = 1 + (vl)vs_choose("bs", mb); M X(bs, 2, true), Y(bs, 1); sym(X, "x"); sym(Y, "y"); T x = tOf(X), y = tOf(Y);
		mode(nn, train, bs); lp.fprop(X); T a1 = fwd(K, w1, x), a2 = fwd(OutT<O>::k, w2, a1);
		same(fc.get_activations(), a1, "hidden activations"); biasOk(fc); same(out.get_activations(), a2, "network output"); vs_assert(!out.get_activations().emulatesBiases() && (vl)out.get_activations().rows() == bs, "output shape");
		same(fc.get_weights(), w1, "forward pass keeps the weights"); same(out.get_weights(), w2, "forward pass keeps the weights"); same(X, x, "forward pass keeps the input");
		if (train) {
			lp.bprop(Y); T d2 = dOut(OutT<O>::d, a2, y), d1 = mulD(K, a1, down(d2, w2)); same(out.get_weights(), step(w2, grad(d2, a1, w2, bs), lr2), "output weights after a step"); same(fc.get_weights(), step(w1, grad(d1, x, w1, bs), lr1), "hidden weights after a step");
			same(X, x, "training keeps the input"); same(Y, y, "training keeps the targets"); w1 = newW(fc, "w1"); w2 = newW(out, "w2"); vs_reach("step");
		}
	}
	vs_reach("fprop");
}
//@ prop=C26 entry=h_ff mode=real reach=fprop,step toassert=60000
//@bounds input 2, hidden layer 2 neurons (identity, sigmoid, relu, softsign), output 1 neuron (linear and sigmoid with quadratic loss, sigmoid with cross-entropy), any weights, learning rates, inputs and targets; two consecutive passes with batches of 1..3 (inference) or 1..2 (training) in any order
extern "C" void h_ff() {
	vs_set_threads(2); bool t = vs_choose("train", 2);
	switch (vs_choose("net", 6)) { case 0: ff<A_ID, 0>(t); break; case 1: ff<A_SIGM, 0>(t); break; case 2: ff<A_RELU, 1>(t); break; case 3: ff<A_SSGN, 2>(t); break; case 4: ff<A_SIGM, 1>(t); break; default: ff<A_ID, 2>(t); }
}
