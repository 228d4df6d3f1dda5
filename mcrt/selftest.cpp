#include "mc.h"
#include <thread>
#include <mutex>
#include <atomic>
#include <condition_variable>
#include <future>
#include <shared_mutex>
#include <memory>
using namespace std;
static int reg = []{
 mc::Options o; 
 mc::add("mutex_ok",[]{ mutex m; int x=0; thread a([&]{lock_guard l(m);x++;}); thread b([&]{lock_guard l(m);x++;}); a.join(); b.join(); mc::check(x==2,"x"); });
 mc::add("mutex3_ok",[]{ mutex m; int x=0; thread a([&]{for(int i=0;i<3;i++){lock_guard l(m);x++;}}); thread b([&]{for(int i=0;i<3;i++){lock_guard l(m);x++;}});thread c([&]{for(int i=0;i<3;i++){lock_guard l(m);x++;}}); a.join(); b.join();c.join(); mc::check(x==9,"x"); });
 mc::add("cv_ok",[]{ mutex m; condition_variable cv; bool r=false; thread a([&]{unique_lock l(m);cv.wait(l,[&]{return r;});}); {lock_guard l(m); r=true;} cv.notify_one(); a.join(); });
 mc::add("future_ok",[]{ auto f=async(launch::async,[]{return 3;}); mc::check(f.get()==3,"f"); });
 mc::add("sp_ok",[]{ auto p=make_shared<int>(1); thread a([p]{ (void)*p;}); thread b([p]{(void)*p;}); p.reset(); a.join(); b.join(); });
 mc::add("atomic_wait_ok",[]{ atomic<int> x{0}; thread a([&]{x.wait(0);}); x=1; x.notify_all(); a.join(); });
 mc::add("spin_ok",[]{ atomic<bool> x{false}; int d=0; thread a([&]{while(!x.load(memory_order_acquire)); mc::check(d==1,"d");}); d=1; x.store(true,memory_order_release); a.join(); });
 mc::add("timed_ok",[]{ mutex m; condition_variable cv; unique_lock l(m); auto s=cv.wait_for(l,chrono::seconds(5)); mc::check(s==cv_status::timeout,"to"); });
 mc::add("timedclk_ok",[]{ auto t=chrono::steady_clock::now(); while(chrono::steady_clock::now()-t<chrono::milliseconds(50)) this_thread::yield(); });
 mc::add("exc_ok",[]{ thread a([]{try{throw 1;}catch(int){}}); try{ throw 2.0;}catch(double){} a.join();});
 mc::add("sm_ok",[]{ shared_mutex m; int x=0; thread a([&]{shared_lock l(m);(void)x;}); thread b([&]{unique_lock l(m);x++;}); a.join(); b.join();});
 mc::add("bad_lost_update",[]{ atomic<int> x{0}; auto f=[&]{int v=x.load(); x.store(v+1);}; thread a(f),b(f); a.join(); b.join(); mc::check(x==2,"lost"); });
 mc::add("bad_race",[]{ int x=0; thread a([&]{x++;}); x++; a.join(); });
 mc::add("bad_relaxed",[]{ atomic<bool> x{false}; int d=0; thread a([&]{while(!x.load(memory_order_relaxed)); mc::check(d==1,"d");}); d=1; x.store(true,memory_order_release); a.join(); });
 mc::add("bad_deadlock",[]{ mutex m,n; thread a([&]{lock_guard l(m);lock_guard k(n);}); {lock_guard l(n);lock_guard k(m);} a.join(); });
 mc::add("bad_uaf",[]{ auto*p=new atomic<int>(0); thread a([=]{p->store(1);}); while(p->load()==0&&p->load()==0) ; delete p; a.join(); auto*q=new atomic<int>(0); thread b([=]{q->store(1);}); delete q; b.join(); });
 mc::add("bad_lostwake",[]{ mutex m; condition_variable cv; atomic<bool> r=false; thread a([&]{unique_lock l(m); if(!r) cv.wait(l);});  r=true; cv.notify_one(); a.join(); });
 mc::add("bad_livelock",[]{ atomic<bool> r=false; thread a([&]{while(!r);}); a.join(); });
 return 0;}();
