// Non-template parts of libstdc++ (which live in libstdc++.so, not in headers), as the symbolic executor sees them.
#define private public
#include <thread>
#undef private
#include <condition_variable>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <mutex>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <unordered_map>

extern "C" {
int pthread_mutex_lock(pthread_mutex_t*);
}

namespace std {

// ---- exceptions (messages are not modelled)
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
__cow_string::__cow_string() {}
__cow_string::__cow_string(const std::string&) {}
__cow_string::__cow_string(const char*, size_t) {}
__cow_string::__cow_string(const __cow_string&) noexcept {}
__cow_string::~__cow_string() {}
__cow_string& __cow_string::operator=(const __cow_string&) noexcept { return *this; }
__cow_string::__cow_string(__cow_string&&) noexcept {}
__cow_string& __cow_string::operator=(__cow_string&&) noexcept { return *this; }
logic_error::logic_error(const string&) {}
logic_error::logic_error(const char*) {}
logic_error::logic_error(const logic_error&) noexcept {}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return "logic_error"; }
runtime_error::runtime_error(const string&) {}
runtime_error::runtime_error(const char*) {}
runtime_error::runtime_error(const runtime_error&) noexcept {}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return "runtime_error"; }
out_of_range::out_of_range(const string& s) : logic_error(s) {}
out_of_range::out_of_range(const char* s) : logic_error(s) {}
out_of_range::~out_of_range() noexcept {}
length_error::length_error(const string& s) : logic_error(s) {}
length_error::length_error(const char* s) : logic_error(s) {}
length_error::~length_error() noexcept {}
invalid_argument::invalid_argument(const string& s) : logic_error(s) {}
invalid_argument::invalid_argument(const char* s) : logic_error(s) {}
invalid_argument::~invalid_argument() noexcept {}
domain_error::domain_error(const string& s) : logic_error(s) {}
domain_error::domain_error(const char* s) : logic_error(s) {}
domain_error::~domain_error() noexcept {}
range_error::range_error(const string& s) : runtime_error(s) {}
range_error::range_error(const char* s) : runtime_error(s) {}
range_error::~range_error() noexcept {}
overflow_error::overflow_error(const string& s) : runtime_error(s) {}
overflow_error::overflow_error(const char* s) : runtime_error(s) {}
overflow_error::~overflow_error() noexcept {}
system_error::~system_error() noexcept {}

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __throw_bad_cast() { throw logic_error("bad_cast"); }
void __throw_bad_weak_ptr_() { throw logic_error("bad_weak_ptr"); }
const nothrow_t nothrow{};

#include "cxx_containers.inc"

// ---- threads
static void* thread_run(void* p)
{
    thread::_State* s = static_cast<thread::_State*>(p);
    s->_M_run();
    delete s;
    return nullptr;
}
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr s, void (*)())
{
    pthread_create(&_M_id._M_thread, nullptr, thread_run, s.get());
    s.release();
}
void thread::join()
{
    if (_M_id == id()) throw runtime_error("join");
    if (pthread_join(_M_id._M_thread, nullptr)) throw runtime_error("join");
    _M_id = id();
}
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 2; }
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
void terminate() noexcept __attribute__((noreturn));
}
extern "C" void abort(void);
void __clang_call_terminate_(void*) { abort(); }
