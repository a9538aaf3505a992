SM = 'nntl/interface/math/smatrix.h'; WK = 'nntl/interface/threads/workers.h'
PRE = '''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <nntl/math.h>
#include <nntl/interfaces.h>
using namespace nntl; using namespace nntl::math;
#define CHK(c) do{ if(!(c)){ printf("FAILED: %s\\n", #c); _exit(1);} }while(0)
'''
S = {
'C01-resize-same': dict(property='C01', edits=[(SM, '			const bool bRet = _impl_resize(r + (m_bEmulateBiases & bSampleInColumn()), c + (m_bEmulateBiases & bSampleInRow()));\n			if (bRet & m_bEmulateBiases) set_biases();',
  '			const auto prevSize = size();\n			const bool bRet = _impl_resize(r + (m_bEmulateBiases & bSampleInColumn()), c + (m_bEmulateBiases & bSampleInRow()));\n			if (bRet & m_bEmulateBiases & (prevSize != size() || m_bHoleyBiases)) set_biases();')],
  needs='a matrix whose bias vector was overwritten without the holey flag, then resized to the size it already has', breaks='biases are not restored to ones by a resize to the same size',
  demo=PRE + 'int main(){ smatrix<float> m(3,2,true); m.fill_last_column(0.f); CHK(m.resize(3,2)); for(int i=0;i<3;++i) CHK(m.get(i,2)==1.f); CHK(m.resize(4,2)); for(int i=0;i<4;++i) CHK(m.get(i,2)==1.f); return 0; }\n'),
'C02-move-flag': dict(property='C02', edits=[(SM, '''			if (this!=&rhs) {
				_free();
				m_pData = rhs.m_pData;
				m_rows = rhs.m_rows;
				m_cols = rhs.m_cols;

				rhs.m_pData = nullptr;
				rhs.m_rows = 0;
				rhs.m_cols = 0;

				m_bEmulateBiases = rhs.m_bEmulateBiases;
				m_bDontManageStorage = rhs.m_bDontManageStorage;
''', '''			if (this!=&rhs) {
				m_bDontManageStorage = rhs.m_bDontManageStorage;
				_free();
				m_pData = rhs.m_pData;
				m_rows = rhs.m_rows;
				m_cols = rhs.m_cols;

				rhs.m_pData = nullptr;
				rhs.m_rows = 0;
				rhs.m_cols = 0;

				m_bEmulateBiases = rhs.m_bEmulateBiases;
''')], needs='a move assignment between matrices where exactly one of the two owns its storage', breaks='memory of an external-storage matrix is freed (or the owned storage leaks) by a move assignment', san='-fsanitize=address',
  demo=PRE + 'int main(){ static float ext[6]; smatrix<float> a(2,2), v; { smatrix<float> t(ext,3,2); v = std::move(t);} CHK(v.bDontManageStorage()); v = std::move(a); CHK(v.bOwnStorage() && a.empty() && v.rows()==2); v.set(1,1,3.f); CHK(v.get(1,1)==3.f); return 0; }\n'),
'C05-tri-float': dict(property='C05', edits=[(SM, 'const auto _ci = static_cast<numel_cnt_t>(::std::ceil((::std::sqrt(static_cast<double>(8 * k + 9)) - 1) / 2));\n			ci = ', 'const auto _ci = static_cast<numel_cnt_t>(::std::ceil((::std::sqrt(static_cast<float>(8 * k + 9)) - 1) / 2));\n			ci = ')],
  needs='an upper triangle with more than a few thousand columns', breaks='single precision makes the index to coordinate mapping wrong for large triangles',
  demo=PRE + 'int main(){ for(vec_len_t n : {10, 1000, 6000}) for(vec_len_t c=n-2;c<n;++c) for(vec_len_t r : {vec_len_t(0),vec_len_t(1),vec_len_t(c-2),vec_len_t(c-1)}){ vec_len_t a,b; smatrix<float>::sTrianglCoordsFromIdx<false>(n,(numel_cnt_t)c*(c-1)/2+r,a,b); CHK(a==r && b==c);} return 0; }\n'),
'C04-strict-negzero': dict(property='C04', edits=[], needs='', breaks='', demo='') ,
'C06-empty-main': dict(property='C06', edits=[(WK, 'const thread_id_t _workingCnt = cnt > useNThreads ? useNThreads', 'const thread_id_t _workingCnt = cnt >= useNThreads ? useNThreads')], needs='an amount of work equal to the number of worker threads to be used', breaks='the calling thread gets an empty range and one thread too many is reported',
  demo=PRE + '''#include <nntl/interface/threads/workers.h>
typedef threads::Workers<float, numel_cnt_t> W;
int main(){ W w; int T=w.cur_workers_count(); if(T<3) return 0; for(numel_cnt_t n=2;n<3*T+5;++n){ std::atomic<long> mn(1<<20); w.run([&](const auto& r){ long c=r.cnt(); long o=mn; while(c<o && !mn.compare_exchange_weak(o,c)); }, n); CHK(mn>=1);} 
 std::atomic<int> z(0); thread_id_t u=0; w.run([&](const auto& r){ if(!r.cnt()) ++z; }, 2, 3, &u); CHK(z==0 && u==2); return 0; }
'''),
'C07-early-range-reset': dict(property='C07', edits=[(WK, '''				Sync_t::lockShared(m_mutex);
				thrdRange.cnt(0);
				m_workingCnt--;
				m_orderDone.notify_one();
				Sync_t::unlockShared(m_mutex);
			}''', '''				Sync_t::lockShared(m_mutex);
				m_workingCnt--;
				m_orderDone.notify_one();
				Sync_t::unlockShared(m_mutex);
				thrdRange.cnt(0);
			}''')], needs='the caller starting its next job between a worker reporting completion and that worker clearing its range', breaks='a worker clears the range of the next job: the job is lost and the caller hangs',
  demo='''#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <nntl/math.h>
#include <nntl/interfaces.h>
#include <nntl/interface/threads/workers.h>
#include <thread>
using namespace nntl;
typedef threads::Workers<float, numel_cnt_t> W;
int main(){ std::atomic<bool> done(false); std::atomic<long> prog(0); std::thread t([&]{ long last=-1; while(!done){ for(int i=0;i<100 && !done;++i) usleep(100000); if(done) break; long p=prog; if(p==last){ printf("a job never finished\\n"); _exit(1);} last=p; } });
 W w; for(int i=0;i<400000;++i){ std::atomic<long> s(0); w.run([&](const auto& r){ s+=r.cnt(); }, 64); if(s!=64){ printf("lost work\\n"); _exit(1);} ++prog; } done=true; t.join(); return 0; }
'''),
}
del S['C04-strict-negzero']
