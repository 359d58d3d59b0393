// an OpenCL device with memory of its own whose work items and commands run in a chosen order
#ifndef CL_DEVICE_H
#define CL_DEVICE_H
#include <string>
#include <vector>
#include <set>
#include <map>
#include <tuple>
#include <cstring>
#include <cstdint>
namespace cld {
struct State { unsigned order = 0; // 0 forwards, 1 backwards, 2.. the permutations of up to 4 work items, larger launches rotated by that many work items
  bool late = false; // commands run when somebody waits for them, else when they are given
  uint64_t launches = 0, items = 0, accesses = 0, transfers = 0; std::map<std::string, uint64_t> kernels; std::string problem;
  std::vector<std::vector<std::string>> machine = {{"device"}}; // the devices of every platform
  uint64_t calls = 0, fail_at = 0; int code = -5; std::string failed, log; // calls of the library; the one that fails, with which error; what a build reports
  long context_platform = -1; std::pair<unsigned, unsigned> context_device, queue_device; std::set<std::pair<unsigned, unsigned>> build_devices; std::vector<std::string> sources; };
State& state();
void enter(); // the following accesses are the kernel's
struct Kernel { std::string name; std::vector<unsigned> size; std::vector<bool> buffer; void (*run)(void* fn, const std::vector<std::string>& args) = nullptr; void* fn = nullptr; };
std::map<std::string, Kernel>& kernels();
template <class T> struct Arg { static const bool buffer = false; static T get(const std::string& s) { T t; memcpy(&t, s.data(), sizeof t); return t; } };
template <class T> struct Arg<T*> { static const bool buffer = true; static T* get(const std::string& s) { void* t; memcpy(&t, s.data(), sizeof t); return (T*)t; } };
template <class... A> struct Call { template <size_t... I> struct Seq {}; template <size_t N, size_t... I> struct Make : Make<N - 1, N - 1, I...> {}; template <size_t... I> struct Make<0, I...> { typedef Seq<I...> type; };
  template <size_t... I> static void go(void (*f)(A...), const std::vector<std::string>& a, Seq<I...>) { std::tuple<A...> t(Arg<A>::get(a[I])...); enter(); f(std::get<I>(t)...); } static void run(void* f, const std::vector<std::string>& a) { go((void (*)(A...))f, a, typename Make<sizeof...(A)>::type()); } };
struct Registration { template <class... A> Registration(const char* name, void (*f)(A...)) { Kernel k; k.name = name; k.size = {(unsigned)sizeof(A)...}; k.buffer = {Arg<A>::buffer...}; k.run = &Call<A...>::run; k.fn = (void*)f; kernels()[name] = k; } };
}
#endif
