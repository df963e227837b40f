// Model of std::thread and std::random_device shared by the symbolic runtime and the native replay driver: a thread runs to
// completion either when it is started or when it is joined (vx_thread_order picks; see vx.h), so every execution is
// deterministic.  Data races between threads are looked for separately by the executor.
#include <condition_variable>
#include <thread>
#include <random>
extern "C"
{
    int vx_thread_order = 0;  // 0: at start; 1: at join; 2: symbolic choice per thread
#ifdef VX_NATIVE
    static void vx_thread_enter(int) {}
    static void vx_thread_leave(int) {}
    static void vx_thread_joined(int) {}
#else
    void vx_thread_enter(int);
    void vx_thread_leave(int);
    void vx_thread_joined(int);
#endif
    bool vx_bool(const char*);
#ifndef VX_NATIVE
    int pthread_cond_destroy(pthread_cond_t*) noexcept { return 0; }
#endif
}
namespace
{
struct VxThread
{
    void* st;
    void (*run)(void*);
    bool                 done;
};
VxThread vxThreads[61];
int      vxThreadCount = 0, vxThreadCur = 0;
void     vxRunThread(int i)
{
    const int prev = vxThreadCur;
    vxThreadCur    = i;
    vx_thread_enter(i);
    vxThreads[i].run(vxThreads[i].st);
    vx_thread_leave(prev);
    vxThreads[i].done = true;
    vxThreadCur       = prev;
}
}  // namespace
namespace std
{
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)())
{
    const int i = ++vxThreadCount;
    if (i > 60)
        __builtin_trap();
    vxThreads[i] = {s.release(), [](void* p)
                    {
                        auto* t = static_cast<_State*>(p);
                        t->_M_run();
                        delete t;
                    },
                    false};
    _M_id        = id(static_cast<__gthread_t>(i));
    const bool later = vx_thread_order == 2 ? vx_bool("$thread_later") : vx_thread_order == 1;
    if (!later)
        vxRunThread(i);
}
void thread::join()
{
    const int i = static_cast<int>(_M_id._M_thread);
    if (!vxThreads[i].done)
        vxRunThread(i);
    vx_thread_joined(i);
    _M_id = id();
}
void thread::detach() { join(); }
// threads run to completion, so there is nobody who could wake one that waits
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>&) { __builtin_trap(); }
void condition_variable::notify_all() noexcept {}
void condition_variable::notify_one() noexcept {}
unsigned thread::hardware_concurrency() noexcept { return 2; }
void         random_device::_M_init(const string&) {}
void         random_device::_M_fini() {}
unsigned int random_device::_M_getval() { return 12345u; }
}  // namespace std
