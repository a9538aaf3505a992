MN = 'nntl/interface/math/mathn.h'; GW = 'nntl/grad_works/grad_works.h'; TD = 'nntl/train_data/_train_data_simple.h'
PRE = '''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <nntl/math.h>
#include <nntl/interfaces.h>
using namespace nntl; using namespace nntl::math;
#define CHK(c) do{ if(!(c)){ printf("FAILED: %s\\n", #c); _exit(1);} }while(0)
typedef double R; typedef smatrix<R> M; typedef smatrix_deform<R> MD; typedef d_int_nI<R>::iMath_t IM;
static bool near(R a, R b){ return std::fabs(a-b) < 1e-9*(1+std::fabs(a)+std::fabs(b)); }
static unsigned long long seed=12345; static R rnd(){ seed=seed*6364136223846793005ull+1442695040888963407ull; return (R)((seed>>33)&0xffff)/32768.-1; }
'''
NET = PRE + '''#include "blas.h"
#include <nntl/nntl.h>
#include <nntl/interface/rng/afrand_mt.h>
#include <nntl/train_data/inmem_train_data.h>
struct Gen { Gen(int){} void RandomInit(int){} void RandomInitByArray(const int*,int){} uint32_t BRandom(){ return (uint32_t)((rnd()+1)*2e9); } template<class T> T FPRandom(){ return (T)((rnd()+1)/2.0001); } R Random(){ return FPRandom<R>(); } int IRandomX(int lo,int hi){ return lo+(int)(FPRandom<R>()*(hi-lo+1)); } };
namespace nntl { namespace rng { namespace _impl { template<> struct AFRAND_MT_THR<Gen, R> { static constexpr size_t bnd_gen_vector = 99999, bnd_gen_vector_gtz = 99999, bnd_gen_vector_norm = 99999, bnd_bernoulli_vector = 99999, bnd_normal_vector = 99999; }; } } }
struct NI : public d_int_nI<R> { typedef inspector::dummy<R> iInspect_t; typedef rng::AFRand_mt<R, Gen, d_int_nI<R>::iThreads_t> iRng_t; };
typedef grad_works<NI> GWk;
static R& E(M& m, int r, int c){ return m.data()[(size_t)c*m.rows()+r]; }
static const R& E(const M& m, int r, int c){ return m.data()[(size_t)c*m.rows()+r]; }
template<class L> static M rndW(L& l, int inc){ M w((vec_len_t)l.get_neurons_cnt(), inc+1), k((vec_len_t)l.get_neurons_cnt(), inc+1); for(numel_cnt_t i=0;i<w.numel();++i) k.data()[i]=w.data()[i]=rnd(); CHK(l.set_weights(std::move(w))); return k; }
template<class N> static void mode(N& nn, bool train, vec_len_t bs){ auto& cd = nn.___get_common_data(); if(cd.set_mode_and_batch_size(train, bs)) nn.get_layer_pack().on_batch_size_change(bs); }
'''
S = {
'C18-maxnorm-bias': dict(property='C18', edits=[(MN, '''			get_self().mrwL2NormSquared(A, pTmpStor);
			if (!bNormIncludesBias) A.restore_last_col();

			// calc scaling coefficients
			const auto pRowNormE = pTmpStor + mRows;
			const real_t newNorm = maxNormSquared;// -2 * ::std::sqrt(math::real_t_limits<real_t>::eps_lower(maxNormSquared));
			auto pCurNorm = pTmpStor;
			while (pCurNorm != pRowNormE) {
				const auto rowNorm = *pCurNorm;
				*pCurNorm++ = rowNorm > maxNormSquared ? ::std::sqrt(newNorm / rowNorm) : real_t(1.0);
			}

			// 3. multiplying
			get_self().mrwMulByVec(A, pTmpStor);
			get_self()._istor_free(pTmpStor, tmemSize);''', '''			get_self().mrwL2NormSquared(A, pTmpStor);

			// calc scaling coefficients
			const auto pRowNormE = pTmpStor + mRows;
			const real_t newNorm = maxNormSquared;// -2 * ::std::sqrt(math::real_t_limits<real_t>::eps_lower(maxNormSquared));
			auto pCurNorm = pTmpStor;
			while (pCurNorm != pRowNormE) {
				const auto rowNorm = *pCurNorm;
				*pCurNorm++ = rowNorm > maxNormSquared ? ::std::sqrt(newNorm / rowNorm) : real_t(1.0);
			}

			// 3. multiplying
			get_self().mrwMulByVec(A, pTmpStor);
			if (!bNormIncludesBias) A.restore_last_col();
			get_self()._istor_free(pTmpStor, tmemSize);''')],
  needs='a matrix big enough for the multi-threaded norm check, bias weight excluded from the norm, a row over the limit', breaks='the bias weight of a rescaled row keeps its old value: weights and bias of the neuron are no longer scaled alike',
  demo=PRE + '''int main(){ IM iM; for(int inc=0; inc<2; ++inc) for(int mt=0; mt<2; ++mt){ MD A(3,4); R o[12]; for(int i=0;i<12;++i) o[i]=A.data()[i]=1+i%5; iM.preinit(1000); CHK(iM.init()); if(mt) iM.mCheck_normalize_rows_mt(A, 5., inc); else iM.mCheck_normalize_rows_st(A, 5., inc); CHK(A.cols()==4); for(int r=0;r<3;++r){ R n=0; for(int c=0;c<3+inc;++c) n+=o[c*3+r]*o[c*3+r]; R k=n>5?std::sqrt(5/n):1; for(int c=0;c<4;++c) CHK(near(A.get(r,c), k*o[c*3+r])); } } return 0; }
'''),
'C11-batch-onecol': dict(property='C11', edits=[(MN, 'const numel_cnt_t _totR1 = (srcBegCol == srcEndCol ? srcEndRow : srcRows) - srcBegRow;', 'const numel_cnt_t _totR1 = srcBegCol == srcEndCol ? srcEndRow : srcRows - srcBegRow;')],
  needs='a thread range that begins and ends within one column, not at its top', breaks='binarization of a batch runs past the range of the thread: rows outside of the batch are overwritten',
  demo=PRE + '''int main(){ IM iM; M src(8,1), d(16,1); for(int i=0;i<8;++i) src.set(i,0,i%2?1.:0.); for(int k=0;k<3;++k){ d.fill(7.); int o=k*4; if(o+8>16) o=8; iM.ewBinarizeBatch_mt(d, o, src, .5); for(int i=0;i<16;++i) CHK(d.get(i,0)==(i<o||i>=o+8 ? 7. : (i-o)%2 ? 1. : 0.)); d.fill(7.); iM._iewBinarizeBatch_st(d, o, src, .5, IM::elms_range(3,5)); for(int i=0;i<16;++i) CHK(d.get(i,0)==(i<o+3||i>=o+5 ? 7. : (i-o)%2 ? 1. : 0.)); } return 0; }
'''),
'C28-adamax-power': dict(property='C28', edits=[(GW, '''			case AdaMax:
				if (bFirstRun) {
					m_optBeta1t = real_t(1.);
''', '''			case AdaMax:
				if (bFirstRun) {
''')], needs='an AdaMax layer whose network is initialised again (a second train() call that reinitialises) after some steps', breaks='the bias correction of AdaMax goes on from the power accumulated before, while its moments restart at zero',
  demo=NET + '''template<class F> static void steps(F&& f){ for(int i=0;i<2;++i) f(); }
int main(){ layer_input<NI> inp(1); LFC<activation::identity<R>,GWk> f(1,.1); layer_output<activation::identity_quad_loss<R>,GWk> out(1,.1); f.get_gradWorks().set_type(GWk::AdaMax).beta1(.5).beta2(.9); auto lp=make_layers(inp,f,out); nnet<decltype(lp)> nn(lp); M X(1,1,true), Y(1,1); X.set(0,0,1.); Y.set(0,0,2.); R d[2];
 for(int k=0;k<2;++k){ M w(1,2), v(1,2); w.fill(.5); v.fill(.25); if(k){ nn.deinit(); } CHK(f.set_weights(std::move(w))); CHK(out.set_weights(std::move(v))); CHK(nn.___init(1,1,false)==decltype(nn)::ErrorCode::Success); mode(nn,true,1); R b=E(f.get_weights(),0,0); steps([&]{ lp.fprop(X); lp.bprop(Y); }); d[k]=E(f.get_weights(),0,0)-b; }
 CHK(near(d[0],d[1])); return 0; }
'''),
'C22-last-row-batch': dict(property='C22', edits=[(TD, 'm_walkX.useExternalStorage(pBegin, dsMtx.sample_size() + 1, batchSize, true, false, true);', 'm_walkX.useExternalStorage(pBegin, dsMtx.sample_size() + 1, m_curBatchSize, true, false, true);')],
  needs='X stored with samples in columns, walked in batches that do not divide the number of samples', breaks='the last batch of X shows more samples than there are: memory behind the data set, and X and Y no longer match',
  demo=NET + '''int main(){ layer_input<NI> inp(2); layer_output<activation::identity_quad_loss<R>,GWk> out(1,.1); auto lp=make_layers(inp,out); nnet<decltype(lp)> nn(lp); inmem_train_data<R,R> td; for(int cs=0;cs<2;++cs){ MD a[4]; for(int i=0;i<2;++i){ a[2*i].will_emulate_biases(); a[2*i].set_batchInRow(cs); a[2*i+1].set_batchInRow(cs); CHK(a[2*i].resize_as_dataset(5,2)); CHK(a[2*i+1].resize_as_dataset(5,1)); a[2*i].fill(3.); a[2*i+1].fill(4.); a[2*i].set_biases(); } inmem_train_data<R,R> t; CHK(t.absorb(std::move(a[0]),std::move(a[1]),std::move(a[2]),std::move(a[3]))); vec_len_t bs=2; IM iM; CHK(t.init4inference(iM,bs)==decltype(t.init4inference(iM,bs))::Success); auto n=t.walk_over_set(0,nn.get_const_common_data(),2); CHK(n==3); vec_len_t s=0; for(int b=0;b<n;++b){ t.next_subset(b,nn.get_const_common_data()); CHK(t.batchX().batch_size()==t.batchY().batch_size()); s+=t.batchX().batch_size(); } CHK(s==5); } return 0; }
'''),
'C24-resize-flags': dict(property='C24', edits=[('nntl/utils/vector_conditions.h', 'm_flgEvalPerf.resize(maxEpoch, defVal);', 'm_flgEvalPerf.assign(maxEpoch, defVal);')],
  needs='resizing a schedule that already has epochs marked', breaks='marks set before the resize are lost',
  demo=PRE + '''#include <nntl/utils/vector_conditions.h>
int main(){ vector_conditions v(6, numel_cnt_t(2)); v.resize(9); for(int i=0;i<9;++i) CHK(v(i)==(i==1||i==3||i==5)); v.silence(1).resize(3); CHK(!v(1) && v.size()==3); return 0; }
'''),
'C21-wrap-all': dict(property='C21', edits=[('nntl/utils/data_buffer.h', '						if (n2 <= m_afterLastValidIdx) {', '						if (n2 < m_afterLastValidIdx) {')],
  needs='a request that wraps around the end of the buffer and takes everything there is', breaks='data that are there are not handed out; when the buffer is full the consumer waits for ever',
  demo=PRE + '''#include <nntl/utils/data_buffer.h>
typedef utils::DataBuffer<int64_t, void> DB;
int main(){ for(int n=2;n<9;++n) for(int k=1;k<n;++k){ int64_t b[9]; DB B(b,n); auto put=[&](int c){ int64_t x[9]={0}; while(c){ int r=(int)B._as_should_work(c); CHK(r>0); B._as_done(x,r); c-=r; } }; auto take=[&](int c){ auto r=B.acquire_data(c); CHK(r.acquired()); B.release_data(r); }; put(n); take(k); put(k); take(n); } return 0; }
'''),
'C30-addendum-once': dict(property='C30', edits=[('nntl/nnet.h', '''			if (m_LMR.bLossAddendumDependsOnActivations) m_Layers.resetCalcLossAddendum();
''', '''			if (m_LMR.bLossAddendumDependsOnActivations && dataSetId == train_set_id) m_Layers.resetCalcLossAddendum();
''')], needs='a layer whose loss addendum depends on its activations (penalised activations), and the loss of the test set', breaks='the test loss is reported with the penalty of the training set',
  demo=NET + '''typedef loss_addendum::L2<R, false, false> Pen; typedef LFC_PA<std::tuple<Pen>, activation::identity<R>, GWk> PL; static R tr=-1, te=-1;
struct Ob : i_training_observer<R> { template<class D, class C> bool init(numel_cnt_t, D&, const C&) { return true; } void deinit() {} template<class D> void on_training_start(const D&, vec_len_t, vec_len_t, numel_cnt_t) {} void report_results_begin(int, numel_cnt_t) {} template<class Y, class C> void report_results(numel_cnt_t, const M&, const math::smatrix<Y>&, const C&) {} void report_results_end(R) {} void on_training_end(const std::chrono::nanoseconds&) {} void on_training_fragment_end(numel_cnt_t e, R a, R b, const std::chrono::nanoseconds&) { if(e<0){ tr=a; te=b; } } };
int main(){ layer_input<NI> inp(1); PL f(1,.1); f.template addendum<Pen>().scale(.5); layer_output<activation::identity_quad_loss<R>,GWk> out(1,.1); auto lp=make_layers(inp,f,out); nnet<decltype(lp)> nn(lp); M w=rndW(f,1), v=rndW(out,1); MD a[4]; R e[2]; for(int i=0;i<2;++i){ a[2*i].will_emulate_biases(); CHK(a[2*i].resize_as_dataset(3,1)); CHK(a[2*i+1].resize_as_dataset(3,1)); R q=0, l=0; for(int j=0;j<3;++j){ R x=E(a[2*i],j,0)=rnd()*(1+3*i), y=E(a[2*i+1],j,0)=rnd(); R h=E(w,0,0)*x+E(w,0,1), o=E(v,0,0)*h+E(v,0,1); q+=h*h; l+=(o-y)*(o-y); } e[i]=l/2/3+.5*.5*q; a[2*i].set_biases(); } inmem_train_data<R,R> td; CHK(td.absorb(std::move(a[0]),std::move(a[1]),std::move(a[2]),std::move(a[3])));
 nnet_train_opts<R, Ob> o(numel_cnt_t(1), numel_cnt_t(1)); o.batchSize(3).calcFullLossValue(true); auto ec=nn.train(td,o); CHK(ec==decltype(ec)::Success); CHK(near(tr,e[0])); CHK(near(te,e[1])); return 0; }
'''),
'C31-snn-var': dict(property='C31', edits=[('nntl/weights_init/static.h', '				const auto prevLayerNeuronsCnt = W.cols() - 1;\n				const real_t stdDev = real_t( ::std::sqrt(paramCoeff / prevLayerNeuronsCnt));', '				const auto prevLayerNeuronsCnt = W.cols() - 1;\n				const real_t stdDev = real_t( ::std::sqrt(paramCoeff / W.cols()));')],
  needs='few inputs (the difference vanishes for wide layers)', breaks='the self-normalising and parametrised schemes draw weights with too small a variance',
  demo=NET + '''typedef NI::iRng_t Rg;
int main(){ IM iM; Rg rg; rg.init_ithreads(iM.ithreads(), 5); M W(20000,2); CHK((weights_init::SNNInit::make_weights(W,rg,iM))); R s=0; for(int i=0;i<20000;++i) s+=E(W,i,0)*E(W,i,0); s/=20000; CHK(s>.9 && s<1.1); return 0; }
'''),
'C33-percent': dict(property='C33', edits=[('nntl/utils/gradcheck.h', '''					(maxParams * u.perc.NPercents) / 100
					, ::std::min(maxParams, u.perc.paramsToCheck)''', '''					(u.perc.paramsToCheck * u.perc.NPercents) / 100
					, ::std::min(maxParams, u.perc.paramsToCheck)''')], needs='a percentage of a group that is bigger than the minimal count', breaks='large layers are checked in the minimal number of components only: wrong gradients elsewhere pass',
  demo=PRE + '''#include <nntl/utils/gradcheck.h>
int main(){ for(int ptc : {1,3,20}) for(unsigned pc : {1u,10u,50u,100u}){ gradcheck_groupSetts g(1); g.set(ptc,pc); for(int m : {1,2,7,40,300}){ int a=m*(int)pc/100, b=std::min(m,ptc); CHK(g.countToCheck(m)==std::max(a,b)); } } return 0; }
'''),
'C32-last-failed': dict(property='C32', edits=[('nntl/weights_init/LsuvExt.h', 'if (!m_firstFailedLayerIdx) m_firstFailedLayerIdx = lIdx;', 'm_firstFailedLayerIdx = lIdx;')], needs='two layers that fail to converge', breaks='the last failing layer is named instead of the first',
  demo=NET + '''#include <boost/accumulators/accumulators.hpp>
#include <boost/accumulators/statistics/mean.hpp>
#include <boost/accumulators/statistics/variance.hpp>
#include <nntl/utils/mtx2Normal.h>
#include <nntl/weights_init/LsuvExt.h>
int main(){ layer_input<NI> inp(2); LFC<activation::identity<R>,GWk> f(2,.1); layer_output<activation::identity_quad_loss<R>,GWk> out(1,.1); auto lp=make_layers(inp,f,out); nnet<decltype(lp)> nn(lp); rndW(f,2); rndW(out,2); MD a[4]; for(int i=0;i<2;++i){ a[2*i].will_emulate_biases(); CHK(a[2*i].resize_as_dataset(5,2)); CHK(a[2*i+1].resize_as_dataset(5,1)); for(int j=0;j<5;++j){ E(a[2*i],j,0)=rnd()*9; E(a[2*i],j,1)=rnd()*5+3; E(a[2*i+1],j,0)=rnd(); } a[2*i].set_biases(); } inmem_train_data<R,R> td; CHK(td.absorb(std::move(a[0]),std::move(a[1]),std::move(a[2]),std::move(a[3])));
 typedef weights_init::procedural::LSUVExt<decltype(nn), decltype(td)> LS; typedef weights_init::procedural::WeightNormSetts<R,R> St; St s; s.bVerbose=false; s.maxTries=1; s.maxReinitTries=1; s.targetScale=77; s.bOnInvidualNeurons=false; LS ls(nn,td,s); CHK(!ls.run()); CHK(ls.m_firstFailedLayerIdx==f.get_layer_idx()); return 0; }
'''),
'C27-inner-dLdAPrev': dict(property='C27', edits=[('nntl/layer/_lph_base.h', '''					m_layers_max_dLdA_numel = ::std::max(lid.max_dLdA_numel //aggregated from encapsulated layers
						, realmtx_t::sNumel(lid.incBS.maxTrainBS, maxIncNeuronsCnt));''', '''					m_layers_max_dLdA_numel = ::std::max(lid.max_dLdA_numel //aggregated from encapsulated layers
						, realmtx_t::sNumel(lid.outgBS.maxTrainBS, first_layer().get_incoming_neurons_cnt()));''')], needs='a horizontal pack whose first inner layer has a smaller receptive field than a later one, which is in turn wider than the inner layers, with a trainable layer below', breaks='the gradient passed down overruns its storage and corrupts the weight gradient of the inner layers',
  demo=NET + '''int main(){ const int I=6; layer_input<NI> inp(2); LFC<activation::identity<R>,GWk> b(I,.1), l1(1,.1), l2(1,.1); auto ph=make_layer_pack_horizontal(make_PHL(l1,0,1), make_PHL(l2,0,I)); layer_output<activation::identity_quad_loss<R>,GWk> out(1,.1); auto lp=make_layers(inp,b,ph,out); nnet<decltype(lp)> nn(lp); M wb=rndW(b,2), w1=rndW(l1,1), w2=rndW(l2,I), wo=rndW(out,2); CHK(nn.___init(2,2,false)==decltype(nn)::ErrorCode::Success); M X(2,2,true), Y(2,1); for(int i=0;i<2;++i){ E(X,i,0)=rnd(); E(X,i,1)=rnd(); E(Y,i,0)=rnd(); } mode(nn,true,2); lp.fprop(X); lp.bprop(Y);
 R g2[I+1]={0}, g1[2]={0}; for(int s=0;s<2;++s){ R a[I], z1=E(w1,0,1), z2=E(w2,0,I); for(int n=0;n<I;++n){ a[n]=E(wb,n,2); for(int j=0;j<2;++j) a[n]+=E(wb,n,j)*E(X,s,j); z2+=E(w2,0,n)*a[n]; } z1+=E(w1,0,0)*a[0]; R o=E(wo,0,0)*z1+E(wo,0,1)*z2+E(wo,0,2), d=(o-E(Y,s,0))/2; for(int n=0;n<=I;++n) g2[n]+=d*E(wo,0,1)*(n<I?a[n]:1); g1[0]+=d*E(wo,0,0)*a[0]; g1[1]+=d*E(wo,0,0); }
 for(int n=0;n<=I;++n) CHK(near(E(l2.get_weights(),0,n), E(w2,0,n)-.1*g2[n])); for(int n=0;n<2;++n) CHK(near(E(l1.get_weights(),0,n), E(w1,0,n)-.1*g1[n])); return 0; }
'''),
}
